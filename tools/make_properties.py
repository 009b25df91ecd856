#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["nion/utils/" + f for f in files],
                          "mechanism": [{"name": n, "where": "nion/utils/" + w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Events call exactly the live listeners, in order",
  "Firing an event synchronously calls, with exactly the given arguments and in the order they were added, each listener that was registered when the fire began and has not been closed by then, once; a listener stops being called when its token is closed or dropped, or when its owner goes away, while a listener registered with an owner survives losing its token. "
  "fire_any stops at the first true result and returns True, otherwise False; fire_all stops at the first false result and returns False, otherwise True (also with no live listeners). "
  "An exception in a listener is reported on standard error, never reaches the code that fires and never disturbs listeners that precede it or the registrations, and neither closing nor dropping a token leaves the listener function referenced by the event. All this holds while other threads add and remove listeners: those there throughout a fire are called once, in order, and those gone before it are not.",
  ["histories", "inputs"], "every sequence of listen / close / drop token / drop owner / fire / fire_any / fire_all, including ones performed by listeners while a fire is in progress",
  "There is no test module for events at all; they are only used incidentally, with one listener that stays open.",
  ["Event.py"], [("weak listener list, closing replaces the callable", "Event.py: Event.listen, EventListener.close"), ("snapshot before calling", "Event.py: Event.fire, fire_any, fire_all")],
  ["calls received by listener functions", "return values of fire_any and fire_all"])

p("C02", "Observables and property models notify exactly the changes made",
  "Each notification an observable object is asked to send reaches every listener of the matching event, once, with the same arguments, and no other event. "
  "Setting a property model's value stores it, and sends one 'value' property-changed notification and one on-value-changed call, both seeing the new value, if and only if it differs from the old value under the model's comparison (going to or from None always differs); setting an equal value changes nothing and sends nothing, and closing the model ends its on-value-changed calls.",
  ["histories", "inputs"], "every sequence of notifications, value assignments (None, equal, unequal, custom comparison) and close on any number of observers",
  "Existing tests never check the set of events fired; PropertyModel is only exercised through structured models.",
  ["Observable.py", "Model.py"], [("one event per kind of notification", "Observable.py: Observable.notify_*"), ("compare, store, notify", "Model.py: PropertyModel.value")],
  ["events fired", "PropertyModel.value"])

p("C03", "Property bindings keep source and target in step",
  "Whenever the bound property of the source (or the bound attribute or tuple element of it) is announced as changed, the target is set once to the converted source value, or to the fallback when the value is None or missing, and this is the same value that asking the binding for the target value returns; changes of other properties do not reach the target. "
  "Updating the source through the binding stores exactly the back-converted and then validated value in that property, attribute or tuple position, leaving the other attributes and tuple elements as they were (a short or absent tuple is padded with None). "
  "A closed binding neither updates its target nor its source.",
  ["histories", "inputs", "configurations"], "every kind of property binding, with and without converter, validator and fallback, and every sequence of source changes, updates from the target, and close",
  "Tests cover two assignments through a tuple binding without converter or fallback; property and attribute bindings have no test.",
  ["Binding.py"], [("property_changed handlers", "Binding.py: PropertyBinding, PropertyAttributeBinding, TuplePropertyBinding"), ("conversion and validation", "Binding.py: Binding.update_source, update_target, get_target_value")],
  ["values given to target_setter", "source property values", "get_target_value()"])

p("C04", "List model edits are announced so that observers can mirror the list",
  "Inserting, appending, removing and clearing items changes a list model like a plain list (its own: the sequence it was made from is not shared), and each edit is announced by exactly one inserted or removed notification carrying the list's key, the item and its index, sent when the list already has its new content. "
  "An observer (in particular a list binding's inserter and remover) that applies the notifications it receives always holds the same items as the model, and receives nothing once closed or for other keys.",
  ["histories"], "every sequence of list edits at every valid index, with any items including equal ones, and observers that attach or close midway",
  "Tests insert three items and remove one; they do not relate notifications to content at each step.",
  ["ListModel.py", "Binding.py"], [("edit then notify", "ListModel.py: ListModel.insert_item, remove_item, clear_items"), ("forward matching keys", "Binding.py: ListBinding")],
  ["ListModel.items", "item_inserted_event, item_removed_event", "ListBinding.inserter, remover, items"])

p("C05", "Converters are inverse to each other on every value they can show",
  "Converting a value and converting the result back returns the value: exactly for integers, booleans as check states, version 4 UUIDs, paths, naive datetimes and None where the converter lets None pass, and to the precision of the displayed text for floats and physical values. Numbers are shown in the converter's format (and, for physical values, scaled by the multiplier, followed by the units). "
  "What the user sees is stable: for every integer position of a scaled integer converter and every whole percentage, converting back and converting again gives the same position or text, and a float is shown within one step of its value. "
  "UUID or datetime text that is not of the accepted form converts back to None rather than raising.",
  ["inputs", "configurations"], "every value of each converter's domain, every format, range, step count and multiplier",
  "One converter is tested, at three values.",
  ["Converter.py"], [("convert / convert_back pairs", "Converter.py")], ["convert()", "convert_back()"])

p("C06", "Float text entry is parsed the same way in every locale",
  "Text starting (after blanks) with a decimal number converts back to that number whatever follows it in fuzzy mode, text not starting with a number gives 0.0, and empty or missing text gives None if None is allowed to pass. "
  "A '.' is taken as decimal point whatever the locale, and the locale's own decimal point is accepted as well; without fuzzy mode the whole text must be a number. Under a '.' locale the meaning of a comma is left open, but no text raises in fuzzy mode.",
  ["inputs", "configurations"], "every text, sign, exponent, surrounding text and locale decimal point",
  "No test parses text; none changes the locale.",
  ["Converter.py"], [("number pattern and locale-aware conversion", "Converter.py: FloatToStringConverter.convert_back")], ["FloatToStringConverter.convert_back()", "PhysicalValueToStringConverter.convert_back()"])

p("C07", "Range validation clamps to the nearest allowed value",
  "Validating an integer against an optional lower and an optional upper bound returns the integer itself if it lies within the bounds and otherwise the bound it exceeds; bounds of zero count as bounds, and validating twice changes nothing more.",
  ["inputs", "configurations"], "every integer and every pair of optional bounds with lower <= upper",
  "There is no test for validators.",
  ["Validator.py"], [("max then min", "Validator.py: IntegerRangeValidator.validate")], ["IntegerRangeValidator.validate()"])

p("C08", "A filtered list is always the filtered and sorted source list",
  "Outside a group of changes, a filtered list holds exactly the source items its filter accepts: in source order when it has no sort key, otherwise ordered by the sort key (descending when reversed). "
  "This holds after any history of source edits, item content changes announced by the item (or not announced, once the list is marked as changed or its filter or sorting is set again), filter / sort key / sort direction / source replacement, and grouped changes, and for filtered lists that use another filtered list as their source; the items handed out are a copy that the caller may keep or change; it also holds when the source is edited in one thread while filters, sorting and groups of changes are set in others, once they are done.",
  ["histories", "configurations"], "every sequence of those operations over distinct items, with nested groups, at any chain depth",
  "Tests run five short fixed scripts over four items; no test changes an item's content.",
  ["ListModel.py"], [("incremental insert, remove, update", "ListModel.py: FilteredListModel item handlers"), ("rebuild and difference", "ListModel.py: FilteredListModel update of items")],
  ["FilteredListModel.items and the named attribute"])

p("C09", "Derived list notifications replay to the same list, properly bracketed",
  "For filtered, mapped and flattened lists, an observer that applies each inserted and removed notification to its own copy has, at every notification, exactly the list's items, and every removed notification names the item that was at the index it gives. "
  "Notifications of a filtered list always fall between a begin-changes and an end-changes announcement, these announcements are balanced for filtered and mapped lists, a mapped list announces one begin and one end for a group however deep it nests, and no item changes are announced by a filtered list while a group of changes is open. All this holds also when source edits, filter and sort changes and groups come from different threads.",
  ["histories"], "every history of source edits, content changes, filter / sort changes, source replacement and grouped changes, over chains of derived lists",
  "Tests count begin and end announcements in four scripts and never replay notifications.",
  ["ListModel.py"], [("edit then notify, one item at a time", "ListModel.py: FilteredListModel, MappedListModel, FlattenedListModel"), ("begin/end change events", "ListModel.py: begin_change, end_change")],
  ["item_inserted_event, item_removed_event, begin_changes_event, end_changes_event"])

p("C10", "List filters mean what their names say and copies behave alike",
  "Each filter accepts an item exactly when its condition holds: the fixed answer, equality or inequality of an attribute (also under a custom comparison), attribute text starting with a string, attribute text containing a string ignoring case and treating it literally, date parts equal to all given ones, a predicate, and conjunction, disjunction and negation of any nesting of these (an empty conjunction accepts, an empty disjunction rejects). "
  "A deep copy of any filter accepts exactly the same items as the original, and changing the list of filters it was built from afterwards does not affect it.",
  ["inputs", "programs"], "every filter expression and every item",
  "Tests use the predicate and the constant filter only; copies are never made.",
  ["ListModel.py"], [("matches and __deepcopy__ per filter", "ListModel.py: Filter and subclasses")], ["Filter.matches()", "copy.deepcopy(filter)"])

p("C11", "A mapped list is the item-by-item image of its source",
  "A mapped list holds, in source order, one mapped item per source item: the result of mapping that source item once, when it was inserted, kept for as long as the item stays. "
  "Each mapped item that leaves, through removal, source replacement or close, is passed to the unmap function exactly once, and no other item is. The items handed out are the caller's own copy.",
  ["histories"], "every history of source edits, moves and source replacement, with equal items allowed, and any source kind (plain or filtered list)",
  "Tests check one insert and one delete and never use an unmap function.",
  ["ListModel.py"], [("insert / remove by index", "ListModel.py: MappedListModel master item handlers")], ["MappedListModel.items", "calls of map_fn and unmap_fn"])

p("C12", "A flattened list is the concatenation of its source's child lists",
  "A flattened list holds the children of its master items, concatenated in master order, after any history of inserting and removing masters, editing the children of any master in the list, and replacing or removing the container. "
  "Masters that have left the list no longer affect it, and re-inserted masters do again. Children of different masters may be edited by different threads. The items handed out are the caller's own copy.",
  ["histories"], "every history of master and child edits, with empty masters and equal children",
  "Tests make one edit to a three-master list.",
  ["ListModel.py"], [("offset of a master computed from the preceding masters' children", "ListModel.py: FlattenedListModel child item handlers")], ["FlattenedListModel.items"])

p("C13", "A list's selections stay on the same items when the list is edited",
  "When an item enters or leaves a filtered, mapped or flattened list, through an edit of its source (or, for a filtered list, a content change that makes the filter accept or reject it), made singly or in a group of changes that does not reorder the items that stay, every selection made from or given to the list keeps designating the same remaining items by index, and so does its anchor unless the anchor's own item left. "
  "A newly entered item is not selected, an item that left is no longer selected, and a released selection is not touched any more.",
  ["histories"], "every selection state and every sequence of single and grouped edits, with any filter and sort order, also for a filtered list over a filtered list",
  "Tests insert and remove one item of an unfiltered mapped list.",
  ["ListModel.py", "Selection.py"], [("shift indexes on insert and remove", "Selection.py: IndexedSelection.insert_index, remove_index"), ("forwarding list edits", "ListModel.py: item handlers of derived lists")],
  ["IndexedSelection.indexes, anchor_index of selections of derived lists"])

p("C14", "Selection commands respect the style and report every change",
  "Every selection command has its set meaning (set, add, remove, toggle, range, several, extend from the anchor through the given index inclusive, clear), limited by the style: never anything under 'none', at most one index under 'single' and 'single or none', and under 'single' a command never empties the selection. "
  "The changed event fires exactly once for a command step that alters the set of selected indexes and not otherwise, and the ordered indexes are the selected indexes, the anchor first if selected and the rest ascending. "
  "After set, and after adding to an empty selection, the anchor is that index; clearing drops the anchor (index 0 under 'single').",
  ["histories", "configurations"], "every style and every sequence of commands and index shifts",
  "One test extends an empty selection.",
  ["Selection.py"], [("style switch in each command", "Selection.py: IndexedSelection")], ["IndexedSelection.indexes, ordered_indexes, current_index, anchor_index, changed_event"])

p("C15", "Derived streams always show the function of their inputs",
  "At rest, a mapped stream's value is its function of the input's value, a combined stream's value is its function (default: the tuple) of all inputs' values, a property stream's value is the observed property of the current source object, a concatenating stream's value is the value of the stream made for the current input (None without one), and a stream's value model holds the stream's value. "
  "Every change of the value is announced once, with the new value readable at that time; value, mapped and property streams announce nothing when the value stays equal (for a property stream with its own comparison: a value that compares equal to the shown one neither replaces it nor is announced); streams and objects that were switched away from have no effect.",
  ["histories", "programs"], "every graph of such streams, every sequence of input values, property changes and source switches",
  "There is no test for streams.",
  ["Stream.py", "Model.py"], [("listen to inputs and recompute", "Stream.py: MapStream, CombineLatestStream, PropertyChangedEventStream, ConcatStream"), ("handle_value", "Model.py: StreamValueModel")],
  ["stream.value", "value_stream events", "StreamValueModel.value"])

p("C16", "Debounced and sampled streams deliver the latest value on schedule",
  "A debounced stream announces, one period after the first change since its last announcement, the value current at that time; a sampled stream announces at multiples of its period, only if there was a change since the last sample (or at the first sample), the value current at that time. "
  "So every change is followed by an announcement of the then latest value within one period, also when the change is made by a listener during an announcement, no more than one announcement occurs per period, and a closed stream announces nothing. A debounced stream's value is always the latest input value, a sampled stream's value is the one it last announced.",
  ["schedules", "histories"], "every timing of input changes relative to the period, and every point of closing",
  "There is no test for streams; timing would need a controlled clock.",
  ["Stream.py"], [("debounce task", "Stream.py: DebounceStream"), ("sample loop", "Stream.py: SampleStream")], ["value_stream events and their virtual times", "value"])

p("C17", "Streams live exactly as long as they are referenced",
  "A derived stream or stream model holds one reference on each input for its lifetime, and releases it when it is closed by losing its last own reference; a stream is closed exactly once, when its reference count returns to zero, in any release order and for any sharing of inputs. "
  "After closing, it does not react to its inputs, and a concatenating stream releases each stream it made as soon as it switches away from it.",
  ["histories", "programs"], "every graph of streams with shared inputs and every order of acquiring and releasing references",
  "There is no test for streams or reference counting.",
  ["Stream.py", "ReferenceCounting.py", "Model.py"], [("add_ref in constructors, remove_ref in close", "Stream.py, Model.py"), ("about_to_delete closes", "Stream.py: AbstractStream")], ["ref_count of streams", "events after close"])

p("C18", "Asynchronously evaluated models settle on the newest function's result",
  "A model fed by a stream of functions evaluates each function once, off the event loop's thread, and updates its value and notifies observers on the event loop. "
  "Once all evaluations are done its value is the result of the most recent function that did not raise (the initial value if all raised), whatever order the evaluations finish in; waiting for them ends when all are done.",
  ["schedules", "histories"], "every sequence of functions and every completion order",
  "There is no test for this model.",
  ["Model.py"], [("run_in_executor, then set value", "Model.py: FuncStreamValueModel")], ["FuncStreamValueModel.value", "property_changed_event"])

p("C19", "Reference counted objects are finalised exactly once, at zero",
  "The reference count equals references added minus references removed (a reference context adds one for its duration, also when left by an exception). "
  "About-to-delete is called exactly once, the first time a checked removal brings the count to zero, and never before; an unchecked removal does not trigger it; removing without a reference is an error that leaves the object unchanged, from any number of threads.",
  ["histories", "schedules"], "every sequence of add, remove, unchecked remove and nested contexts, and concurrent balanced use from several threads",
  "There is no test for reference counting.",
  ["ReferenceCounting.py"], [("count under a lock, active flag", "ReferenceCounting.py: ReferenceCounted")], ["ref_count", "about_to_delete calls"])

p("C20", "Persistent objects survive writing and reading unchanged",
  "Writing an object tree to a dict and reading it into a fresh object of the same definition gives an object with the same identifiers, property values, items and ordered relationships, recursively, which writes the same dict again. "
  "The dict uses each property's and relationship's storage key, holds no entry for a None property, contains converted values where there is a converter, shares no mutable value with the object, and a key missing from the dict leaves the default. "
  "A deep copy has equal values and structure, new identifiers, and is independent of the original.",
  ["inputs", "configurations", "programs"], "every object tree over properties with and without converter, validator, separate key, factory, custom reader/writer or copy-on-read, and nested items and relationships",
  "One test reads an empty dict.",
  ["Persistence.py"], [("read_from_dict / write_to_dict", "Persistence.py: PersistentObject, PersistentProperty"), ("deepcopy_from", "Persistence.py: PersistentObject")], ["write_to_dict()", "attribute values", "uuid"])

p("C21", "Persistent storage always equals what the objects would write",
  "For every object tree attached to a context with a storage handler, after each change made through the object interface (set or clear a property, set or replace or clear an item, insert, append, extend or remove relationship items, at any depth) the storage holds exactly what the tree would write. "
  "Changes to objects that have been removed or replaced never reach storage, and objects re-inserted later are stored again. The context hands out independent copies of the stored properties, and passes its other storage services (external data, write delay, rewriting, storage properties) to the storage of the object's own tree, once and with the same arguments.",
  ["histories"], "every sequence of changes to trees of any depth, including edits of detached objects and re-insertion",
  "No test attaches a storage handler.",
  ["Persistence.py"], [("property_changed, clear_property, item_set, item_inserted, item_removed", "Persistence.py: PersistentObject, PersistentObjectContext"), ("accessor in parent", "Persistence.py: get_accessor_in_parent")], ["calls of the storage handler and the dict it maintains", "write_to_dict()"])

p("C22", "The context knows exactly the objects attached to it",
  "An object is registered with a context, under its identifier, exactly while it belongs to a tree attached to that context, and every object in an attached tree has that context; detaching, removing or replacing an object unregisters its whole subtree. "
  "A subscriber is told when its object becomes registered, at once if it already is, and told when it becomes unregistered, which ends the subscription, once each, also if it subscribed while being told of the registration; the registration event announces each of these once; objects that no longer exist are not reported as registered; every object whose context changes is told so.",
  ["histories"], "every sequence of attaching, detaching, inserting, removing, replacing and subscribing",
  "Tests cover one object and one subscription each.",
  ["Persistence.py"], [("register, unregister, subscribe", "Persistence.py: PersistentObjectContext"), ("context propagation", "Persistence.py: PersistentObject.persistent_object_context")], ["get_registered_object()", "subscription callbacks", "registration_event", "persistent_object_context"])

p("C23", "Persistent property rules hold and every change marks its ancestors",
  "Assigning a property stores the validated value, or a copy independent of the assigned object, calls the changed callback once with name and stored value, which can be read by then, and is refused with an attribute error if the property is read-only; a copy-on-read property hands out independent copies, and so does a relationship attribute; a hidden property or item is not an attribute. "
  "Every change to an object increases the modified count of that object and of each ancestor by exactly one and gives them the same modification time, and changes nothing else's. "
  "Item and relationship callbacks are called once per change with the right name, position and objects, also when the objects are read, the modification time is restored when read, and all objects leave the reading state when reading finishes.",
  ["histories", "inputs"], "every sequence of changes at any depth of a tree and every property configuration",
  "No test sets a property on a persistent object.",
  ["Persistence.py"], [("set_value", "Persistence.py: PersistentProperty"), ("update of modified through parents", "Persistence.py: PersistentObject")], ["attribute values", "modified_count, modified", "callbacks"])

p("C24", "The registry returns exactly what is registered, best priority first",
  "Looking up a component type gives exactly the components currently registered for it, and a single lookup gives one with the highest priority (50 if it states none), or None; what a lookup gave is not affected by later registrations. "
  "Registering and unregistering, in full or for some types, announce the component with exactly the types concerned; a refused registration or unregistration changes nothing and announces nothing; asking for existing components announces each component of that type once, also while listeners register further components.",
  ["histories", "inputs"], "every sequence of registrations and unregistrations of several components over several types with any priorities",
  "One test registers one object; priorities and announcements are not tested.",
  ["Registry.py"], [("two maps kept in step", "Registry.py: ComponentManager"), ("sort by priority", "Registry.py: get_component")], ["get_components_by_type()", "get_component()", "registration events"])

p("C25", "Structured models hold the given values and copies are equal",
  "A model built from a description holds, in every field of every nested record and array, the given value, or else the default, and converting it to a dict gives exactly the values it holds. "
  "Reading such a dict into another model of the same description, copying from a model, and deep copying all give equal and independent models, also when array lengths differ. "
  "Array fields behave as sequences (length, item, membership, insert, append, delete) except that items cannot be assigned, and every model can be closed.",
  ["inputs", "programs", "configurations"], "every description (strings, booleans, ints, floats, nested records and arrays, with defaults) and every value of it without None",
  "Tests build a few small descriptions and copy records of two ints without defaults.",
  ["StructuredModel.py"], [("build_model, build_value", "StructuredModel.py"), ("to_dict_value, from_dict_value", "StructuredModel.py: RecordModel, ArrayModel, FieldPropertyModel")], ["field attributes", "to_dict_value()"])

p("C26", "Structured models announce every change exactly once, at every level",
  "Each change of a field value, and each insertion or removal in an array, at any depth fires the model-changed event of every enclosing model exactly once, and only theirs; assigning an equal value fires nothing. "
  "The enclosing record also announces the field's name for a changed value, and name, item and index for array edits, so that observers can mirror arrays; items removed from an array no longer affect it and items inserted do, and a closed model no longer reports changes of its parts.",
  ["histories", "programs"], "every description and every sequence of field assignments, array edits, and dict or copy updates",
  "Tests make one or two changes at depth one or two.",
  ["StructuredModel.py"], [("listeners on field models", "StructuredModel.py: RecordModel"), ("one listener per array item", "StructuredModel.py: ArrayModel")], ["model_changed_event, property_changed_event, item_inserted_event, item_removed_event"])

p("C27", "Points, sizes and rectangles obey plane arithmetic",
  "Integer and float points, sizes and rectangles agree with coordinate-wise arithmetic on (y, x) pairs for construction, indexing, comparison, negation, sums, differences, multiples (rounded down for integer sizes), length and conversion, and == and != are opposites. "
  "Rectangle edges, corners, centre, size, slices and constructors are mutually consistent, left and top edges are inside and right and bottom edges are not; translating or adding a point moves the rectangle by it; insetting shrinks each side. "
  "The intersection contains exactly the points in both rectangles, the union is the smallest rectangle containing both, and two rectangles intersect exactly if they share at least a boundary point.",
  ["inputs"], "all coordinates, and all sizes that are not negative",
  "Tests check one inequality and one intersection.",
  ["Geometry.py"], [("operators and properties", "Geometry.py: IntPoint, IntSize, IntRect, FloatPoint, FloatSize, FloatRect")], ["public operators and properties"])

p("C28", "Fitting, mapping and rotating preserve the geometry they promise",
  "Fitting a rectangle to an aspect ratio or size gives the largest rectangle with that ratio that lies inside it, centred. "
  "Mapping points, sizes and rectangles from one rectangle to another sends corners to corners, preserves relative position, and is undone by mapping back. "
  "Rotating a point about an origin (or a size) by an angle preserves distances to it, is undone by the opposite angle, adds up, and a quarter turn takes (x, y) to (-y, x); distance, midpoint and inset agree with their definitions.",
  ["inputs"], "all rectangles with positive size, ratios, points and angles",
  "Tests compare the ratio of four fitted rectangles.",
  ["Geometry.py"], [("fit_to_aspect_ratio, map_*, rotate, distance, midpoint, inset_rect", "Geometry.py")], ["results of those functions"])

p("C29", "Linear axis ticks are pretty, ordered and enclose the data",
  "For any two finite, distinguishable ends in either order the ticks are strictly increasing, evenly spaced by the reported division, which is 1, 2 or 5 times a power of ten, and run from the reported minimum, not above the data, to the reported maximum, not below it, each end being less than one division away from the data; there are at least two ticks, at least a quarter of the requested number and at most about twice it. "
  "There is one label per tick, the labels are distinct, and each reads as the tick's value to the last digit shown. "
  "Degenerate or non-finite ends give a single tick.",
  ["inputs", "configurations"], "all pairs of ends across magnitudes and signs, and tick counts from 2",
  "Tests check eight ranges for distinct labels and four for exact labels.",
  ["Geometry.py"], [("make_pretty, make_pretty_range2", "Geometry.py"), ("labels", "Geometry.py: LinearTicker")], ["Ticker.values, labels, minimum, maximum, division, precision"])

p("C30", "Logarithmic axis ticks are ordered, labelled and cover the data",
  "For any finite ends low <= high (as logarithms) the ticks are increasing, there is one label per tick, each label reads as the base raised to the tick to the digits shown, labels are distinct for base 10, and the reported minimum and maximum enclose the data. "
  "The first tick is not above the low end and less than one step below it, the last tick is not below the high end and less than two steps above it, there are at least two and at most about twice the requested number of major ticks, major ticks (those not listed as minor) are evenly spaced, and minor ticks are whole multiples of the preceding major tick, below the next power. "
  "Non-finite ends give one placeholder tick.",
  ["inputs", "configurations"], "all pairs of ends, tick counts and bases",
  "Tests check labels of a dozen ranges.",
  ["Geometry.py"], [("decades and subdivisions", "Geometry.py: LogTicker")], ["LogTicker.values, labels, minimum, maximum, minor_tick_indices"])

p("C31", "Queued tasks run once each, in order; task sets keep the newest",
  "Performing a task queue runs exactly the tasks that were queued when it began, once each and in the order queued; tasks queued by tasks wait for the next time, a task that raises does not lose the tasks after it, and clearing discards the tasks without running them; when no task raises, joining the queue returns once all its tasks are performed or cleared. "
  "Performing a task set runs, once, the most recent task of each key that was neither cleared nor already performed; tasks added meanwhile wait for the next time (tasks of a set do not raise). Tasks added and performed by several threads run once each, too.",
  ["histories"], "every sequence of adding, performing, clearing, and tasks that add, clear or raise (a task that clears does not also add)",
  "There is no test for task queues.",
  ["Process.py"], [("bounded by the size at start", "Process.py: TaskQueue"), ("take and clear under a lock", "Process.py: TaskSet")], ["order of task calls"])

p("C32", "A thread pool runs each task at most once and none after closing",
  "Every function queued before closing is executed exactly once if the pool is run to completion, in queue order when run explicitly or by one thread, whether or not other functions raise. "
  "Closing drops what has not started, waits for what is running, and returns; afterwards nothing queued before or later ever runs and the pool's threads end.",
  ["schedules", "histories"], "every mix of queueing (also from tasks), explicit runs, thread counts and close points",
  "There is no test for thread pools.",
  ["ThreadPool.py"], [("task lock and cancel", "ThreadPool.py: ThreadPoolTask"), ("closed flag and queue", "ThreadPool.py: ThreadPool")], ["function calls and their threads", "close() returning"])

p("C33", "A thread dispatcher never misses a trigger nor exceeds its rate",
  "After every trigger of a started dispatcher the function is invoked, starting at or after the trigger, on one thread and never concurrently with itself; triggers made during the wait or the call may be merged but never lost, and nothing is invoked without a trigger. "
  "An invocation starts no sooner than the minimum interval after the previous one ended, a waiting trigger returns only once an invocation has finished, or the dispatcher is closed, and also if the function raises, an exception does not stop later triggers, and closing waits for a running invocation, after which nothing is invoked.",
  ["schedules", "histories"], "every timing of triggers, waiting triggers, exceptions and close relative to invocations",
  "There is no test for the dispatcher.",
  ["ThreadPool.py"], [("event, lock and rate loop", "ThreadPool.py: ThreadDispatcher")], ["function invocations and their times", "trigger() and close() returning"])

p("C34", "A promise is evaluated at most once successfully",
  "The function of a promise is not called until the value is requested; the first request that succeeds fixes the value, which every request from any thread then returns without calling the function again, and a request whose function raises passes the exception on and leaves the promise unevaluated. "
  "The optional value is None and has-value false before evaluation, and afterwards they give the value and whether it is not None, without ever evaluating.",
  ["histories", "schedules"], "every sequence of accesses, functions that fail some times, and concurrent first accesses",
  "There is no test for promises.",
  ["Promise.py"], [("evaluate under a lock, forget the function", "Promise.py: Promise")], ["value, opt_value, has_value", "calls of the function"])

p("C35", "Applying a recording reproduces the recorded changes",
  "Applying what a recorder recorded of an object tree to a copy of the tree taken when recording started (found by the accessor, if the recorder was given one) makes the copy equal to the recorded tree, for property changes of the object and of its items and relationship items at any depth, insertions and removals anywhere, and set or cleared items. "
  "Changes of read-only and non-recordable properties are not transferred (an inserted object comes with all its values), nothing done after the recorder is closed is recorded, and applying does not change the recorded tree.",
  ["histories"], "every sequence of such changes, in any interleaving",
  "There is no test for recorders.",
  ["Recorder.py"], [("listeners append to a shared log", "Recorder.py: Recorder"), ("accessors from the root", "Recorder.py: Recorder")], ["state of the object the recording is applied to"])

p("C36", "Closing an event loop finishes outstanding work first",
  "Closing an event loop runs every outstanding task, including those waiting for functions on executor threads and tasks that raise or were cancelled, to its end, and then leaves the loop closed and the executor stopped. "
  "It returns normally also when there are no tasks.",
  ["schedules", "histories"], "every set of outstanding tasks, sleeping, chained, executor-bound, raising or cancelled",
  "There is no test for it.",
  ["Process.py"], [("gather all tasks, then shut down", "Process.py: close_event_loop")], ["tasks' states", "loop.is_closed()"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
