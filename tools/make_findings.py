#!/usr/bin/env python3
"""Writes known_findings.json: the defects found and repaired (fixed entries suppress nothing), and any recorded but not repaired."""
import json, pathlib
FIXED = """
bc28958 C01 | fire_any and fire_all returned None instead of False / True when there was no live listener
0929982 C01 | a listener registered with an owner whose truth value is false was dropped at once
848c094 C01 | fire_all returned False when another thread closed a listener at the wrong moment
12503bf C03 | attribute and tuple bindings passed None to the converter instead of giving the fallback
6692ce1 C09 | replacing all items of a filtered list announced removals with items that did not match their indexes
f73c2c9 C08 | items inserted within a group into an unsorted, reversed filtered list ended up in reverse order
d23b293 C08 | an item of a sorted filtered list stayed where it was when its sort key changed
2208236 C08 | a filtered list was out of order after items moved or changed within a group of changes
974bc23 C13 | selections of a flattened list were shifted at the child's index rather than the flattened index
caf428b C13 | selections of a filtered list were shifted by insertions and removals of source items that the filter rejects
f9c89b1 C13 | releasing one selection could release another with equal indexes instead
03aa6c4 C05 | UUID and datetime converters raised when converting None back
0f52b1e C05 C06 | physical value converters that let None pass raised when converting None back
94bf093 C05 | scaled integer positions and percentages drifted by one when converted there and back
4fd9d4b C06 | fuzzy float entry raised for a number followed by a comma
0976499 C10 | a text filter could not be deep copied
e1ab675 C14 | clearing a single-style selection left other indexes selected
5886bf7 C14 | extending a selection to its own, deselected anchor did not select it
cc37239 C16 | the first sample of a sampled stream was None instead of the input's value
eb53fd3 C16 | a value set from another thread while sampling was lost
3bdeaea C16 | a change made by a listener during a debounced announcement was never announced
cb4a8de C18 | a slower, older function replaced the value of a newer one
fbc057c C20 | objects with hidden items could not be deep copied
4004c0f C22 | subscribing to a registered object without a registered function raised
c57a2ca C21 | insertions and removals in a relationship with a storage key went to another key of the storage
2f19b9b C21 | clearing a property with a storage key left the stored value in place
5e6ae0f C20 C22 C23 | a replaced or cleared item kept its parent, context and registration
be70662 C24 | unregistering a component from all its types announced an empty set of types
9ab3a0b C08 C09 | a filtered list stopped following its source for good (a mapped list announced unbalanced groups) when two threads began groups of changes at once
b97ab94 C09 | an item inserted by another thread while a filter was being set was announced at an index beyond the list
0c953d8 C12 C09 | children of different masters of a flattened list edited by two threads ended up in the wrong order
482d1bd C24 | announcing or unregistering the components of a type raised when components were registered or unregistered meanwhile
37399c4 C24 | a single lookup gave a component with the lowest priority
a5c8aa1 C25 | closing an array model raised
d83b3f3 C25 | a float field could not be built
0abe68c C25 | a given value equal to false was replaced by the default
45ebbb9 C25 C26 | array models of simple values could not be converted to or updated from dicts, nor announced it
9a1c86e C25 | testing membership in an array field raised
5ed7990 C26 | removing an array item stopped listening to another item
15a710c C29 | ranges just below a power of ten at or below one gave a division of zero and a single tick
289ab8d C29 | ticks of negative ranges with exponent labels had equal labels
5436a0e C30 | the reported maximum of a logarithmic ticker could lie below the data (and the minimum above it)
f95edb3 C13 | in the first group of changes of a filtered list, selections stayed on their indexes instead of their items
f13266c C33 | a waiting trigger never returned if the function raised
227cc50 C35 | recordings addressed objects by where they are now, read values when applied, duplicated insertions and failed for set items and hidden items
3147c5e C08 C11 C12 | a derived list did not follow a container with a length of zero, and failed when that was replaced later
e3856de C15 | a property stream did not observe a source object that is falsy
0160726 C20 | an item that is falsy was not written
0160726 C21 | a storage or context that is falsy was taken for absent
0160726 C22 | an item that is falsy did not get the context of its parent
0160726 C23 | changes did not mark an ancestor that is falsy
2eabbf8 C35 | changes of an item that is falsy were not recorded
"""
KNOWN = []
out = []
for line in FIXED.strip().splitlines():
    head, what = line.split(" | ")
    commit, *props = head.split()
    for p in props:
        out.append({"property": p, "status": "fixed", "commit": commit, "what": what, "text": f"fixed: property={p} {commit} {what}"})
out += KNOWN
path = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
path.write_text(json.dumps({"findings": out}, indent=1) + "\n")
print(len(out))
