From bc2895871665412ec5ff874bd4957bf869960c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:26 +0000
Subject: [PATCH 01/55] fix: fire_any and fire_all return a definite answer
 without live listeners

---
 nion/utils/Event.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index 104f800..dd5a8c9 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -21,6 +21,7 @@ class EventListener:
     def __init__(self, listener_fn, trace: bool):
         self.__listener_fn = listener_fn
         self.tb = traceback.extract_stack() if trace else None
+        self.closed = False
         # the call function is very performance critical; make it fast by using a property
         # instead of a method lookup.
         if callable(listener_fn):
@@ -31,6 +32,7 @@ class EventListener:
             self.call = void
 
     def close(self):
+        self.closed = True
         self.__listener_fn = None
         def void(*args, **kwargs):
             pass
@@ -127,6 +129,8 @@ class Event:
                 return False
             except Exception as e:
                 self.__print_event_exception(listener)
+                return None
+        return False
 
     def fire_all(self, *args, **keywords):
         """Calls listeners (in order added) until one returns False or else return True."""
@@ -136,9 +140,11 @@ class Event:
                 with self.__weak_listeners_mutex:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
-                    if listener:
+                    if listener and not listener.closed:
                         if not listener.call(*args, **keywords):
                             return False
                 return True
             except Exception as e:
                 self.__print_event_exception(listener)
+                return None
+        return True
-- 
2.43.0


From 0929982241f4b85a613aedfe48aedb1552fc04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:28:28 +0000
Subject: [PATCH 02/55] fix: listeners registered with an owner that is falsy
 are kept alive by it

---
 nion/utils/Event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index dd5a8c9..fcb23ca 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -77,7 +77,7 @@ class Event:
         weak_listener = weakref.ref(listener, remove_listener)
         with self.__weak_listeners_mutex:
             self.__weak_listeners.append(weak_listener)
-        if owner:
+        if owner is not None:
             def owner_gone(weak_owner):
                 listener = self.__listeners[id(weak_owner)][0]
                 listener.close()
-- 
2.43.0


From 12503bfe2dfb1cfd835d2b836637571d5c168319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:20 +0000
Subject: [PATCH 03/55] fix: attribute and tuple bindings show the fallback for
 a value of None

---
 nion/utils/Binding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Binding.py b/nion/utils/Binding.py
index bb96fe5..718e79a 100644
--- a/nion/utils/Binding.py
+++ b/nion/utils/Binding.py
@@ -282,8 +282,9 @@ class PropertyAttributeBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and hasattr(value, self.__attribute_name):
-                    self.update_target(getattr(value, self.__attribute_name))
+                attribute_value = getattr(value, self.__attribute_name, None) if value is not None else None
+                if attribute_value is not None:
+                    self.update_target(attribute_value)
                 else:
                     self.update_target_direct(self.fallback)
 
@@ -338,7 +339,7 @@ class TuplePropertyBinding(Binding):
             if property_name_ == self.__property_name:
                 # perform on the main thread
                 value = getattr(source, property_name)
-                if value is not None and self.__tuple_index < len(value):
+                if value is not None and self.__tuple_index < len(value) and value[self.__tuple_index] is not None:
                     self.update_target(value[self.__tuple_index])
                 else:
                     self.update_target_direct(self.fallback)
-- 
2.43.0


From 6692ce11a6cf6bac8211d7fc5bc3bf6e4800ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:49 +0000
Subject: [PATCH 04/55] fix: a filtered list announces full replacement
 removals with matching items and indexes

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7ad5f4b..ab555f2 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -533,7 +533,7 @@ class FilteredListModel(Observable.Observable):
                     self.__insert_item(item, sort_key)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
-                for item in old_items:
+                for item in reversed(old_items):
                     # remove all items
                     self.__items.pop()
                     self.notify_remove_item(self.__items_key, item, len(self.__items))
-- 
2.43.0


From f73c2c919dda0acd4dbfdf6ff7c6b3069d8bc09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:52 +0000
Subject: [PATCH 05/55] fix: grouped insertions into an unsorted filtered list
 ignore the sort direction

---
 nion/utils/ListModel.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index ab555f2..198effc 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -391,12 +391,12 @@ class FilteredListModel(Observable.Observable):
             if self.__change_level > 0:
                 return
             if self.filter.matches(item):
-                self.__insert_item(item, self.sort_key)
+                self.__insert_item(item, self.sort_key, self.sort_reverse)
 
-    def __insert_item(self, item, sort_key) -> None:
+    def __insert_item(self, item, sort_key, sort_reverse: bool) -> None:
         items = self.__items
         if sort_key is not None:
-            sort_operator = operator.gt if self.sort_reverse else operator.lt
+            sort_operator = operator.gt if sort_reverse else operator.lt
             before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
         else:
             before_index = self.__find_unsorted_index_for_item(item, self._get_master_items(), self.filter)
@@ -513,9 +513,12 @@ class FilteredListModel(Observable.Observable):
             self.begin_changes_event.fire(self.__items_key)
             if self.__items_sorted:
                 sort_key = self.sort_key
+                sort_reverse = self.sort_reverse
                 if not sort_key:
+                    # without a sort key, the items are in the order of the master items, never reversed
                     indexes = {item: index for index, item in enumerate(items)}
                     sort_key = lambda x: indexes[x]
+                    sort_reverse = False
                 old_items_set = set(old_items)
                 new_items_set = set(items)
                 insert_items_set = new_items_set - old_items_set
@@ -530,7 +533,7 @@ class FilteredListModel(Observable.Observable):
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
-                    self.__insert_item(item, sort_key)
+                    self.__insert_item(item, sort_key, sort_reverse)
             else:
                 # requires sorting and not already sorted or not sorted: fall back to full replacement
                 for item in reversed(old_items):
-- 
2.43.0


From d23b2932e2670162537640efcd26088eb1d2c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:14 +0000
Subject: [PATCH 06/55] fix: an item of a sorted filtered list moves to its
 place when its content changes

---
 nion/utils/ListModel.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 198effc..4e053a6 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -440,18 +440,17 @@ class FilteredListModel(Observable.Observable):
                 if sort_key is not None:
                     # are items sorted?
                     sort_operator = operator.gt if self.sort_reverse else operator.lt
-                    before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                     if item in items:
-                        # item already in list?
+                        # item already in list? find its place among the other items, which are sorted.
                         index = items.index(item)
-                        if before_index < index:
+                        other_items = items[:index] + items[index + 1:]
+                        before_index = self.__find_sorted_index_for_item(item, other_items, sort_key, sort_operator)
+                        if before_index != index:
                             self.__removed_master_item(index, item)
                             self.__inserted_master_item(before_index, item)
-                        elif before_index > index:
-                            self.__removed_master_item(index, item)
-                            self.__inserted_master_item(before_index - 1, item)
                     else:
                         # item is not in list, just insert
+                        before_index = self.__find_sorted_index_for_item(item, items, sort_key, sort_operator)
                         self.__inserted_master_item(before_index, item)
                 else:
                     # items are not sorted
-- 
2.43.0


From 22082366f2057833e6694f5cbb322893ca17bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:45 +0000
Subject: [PATCH 07/55] fix: a filtered list is in order after items move or
 change within a group of changes

---
 nion/utils/ListModel.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 4e053a6..195ff88 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -522,6 +522,17 @@ class FilteredListModel(Observable.Observable):
                 new_items_set = set(items)
                 insert_items_set = new_items_set - old_items_set
                 remove_items_set = old_items_set - new_items_set
+                # items may have been moved or their sort key may have changed during the changes. remove and
+                # insert the ones that are out of order again so that the insertions below start from sorted items.
+                out_of_order = operator.lt if sort_reverse else operator.gt
+                ordered_items = list()
+                for item in old_items:
+                    if item in new_items_set:
+                        if ordered_items and out_of_order(sort_key(ordered_items[-1]), sort_key(item)):
+                            remove_items_set.add(item)
+                            insert_items_set.add(item)
+                        else:
+                            ordered_items.append(item)
                 items_removed = 0
                 # remove old items by iterating through all and checking whether in remove items set
                 for index, item in enumerate(old_items):
-- 
2.43.0


From 974bc23cec197c12b90e4c8c4ec3175c26f6b7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:50 +0000
Subject: [PATCH 08/55] fix: selections of a flattened list follow insertions
 at their flattened index

---
 nion/utils/ListModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 195ff88..7342c4a 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -912,7 +912,7 @@ class FlattenedListModel(Observable.Observable):
             self.__items.insert(master_index, item)
             self.notify_insert_item(self.__items_key, item, master_index)
             for selection in self.__selections:
-                selection.insert_index(before_index)
+                selection.insert_index(master_index)
 
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-- 
2.43.0


From caf428b73acfa462e843341e6191325b5f17bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:03 +0000
Subject: [PATCH 09/55] fix: selections of a filtered list follow its own items
 rather than the source's

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 7342c4a..2a6f455 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -403,6 +403,8 @@ class FilteredListModel(Observable.Observable):
         self.__items.insert(before_index, item)
         self.begin_changes_event.fire(self.__items_key)
         self.notify_insert_item(self.__items_key, item, before_index)
+        for selection in self.__selections:
+            selection.insert_index(before_index)
         self.end_changes_event.fire(self.__items_key)
 
     def __remove_item(self, item):
@@ -410,6 +412,8 @@ class FilteredListModel(Observable.Observable):
         del self.__items[item_index]
         self.begin_changes_event.fire(self.__items_key)
         self.notify_remove_item(self.__items_key, item, item_index)
+        for selection in self.__selections:
+            selection.remove_index(item_index)
         self.end_changes_event.fire(self.__items_key)
 
     # thread safe
@@ -540,6 +544,8 @@ class FilteredListModel(Observable.Observable):
                         item_index = index - items_removed
                         del self.__items[item_index]
                         self.notify_remove_item(self.__items_key, item, item_index)
+                        for selection in self.__selections:
+                            selection.remove_index(item_index)
                         items_removed += 1
                 # insert using sorting
                 for item in insert_items_set:
@@ -636,8 +642,6 @@ class FilteredListModel(Observable.Observable):
 
                 self.__item_changed_event_listeners[id(item)] = item.item_changed_event.listen(item_content_changed) if hasattr(item, "item_changed_event") else None
                 self.__inserted_master_item(before_index, item)
-                for selection in self.__selections:
-                    selection.insert_index(before_index)
 
     # thread safe.
     def __item_removed(self, key, item, index):
@@ -649,8 +653,6 @@ class FilteredListModel(Observable.Observable):
                     self.__item_changed_event_listeners[id(item)].close()
                 del self.__item_changed_event_listeners[id(item)]
                 self.__removed_master_item(index, item)
-                for selection in self.__selections:
-                    selection.remove_index(index)
 
 
 class MappedListModel(Observable.Observable):
-- 
2.43.0


From f9c89b111b113ec4509fbe1e7cd9848196004c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:12 +0000
Subject: [PATCH 10/55] fix: releasing a selection of a list never releases
 another, equal selection

---
 nion/utils/ListModel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 2a6f455..95c736a 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -624,7 +624,8 @@ class FilteredListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal, so find this very selection
+        del self.__selections[[id(selection_) for selection_ in self.__selections].index(id(selection))]
 
     # thread safe.
     def __item_inserted(self, key, item, before_index):
@@ -778,7 +779,8 @@ class MappedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal, so find this very selection
+        del self.__selections[[id(selection_) for selection_ in self.__selections].index(id(selection))]
 
     # thread safe.
     def __master_item_inserted(self, key, item, before_index):
@@ -870,7 +872,8 @@ class FlattenedListModel(Observable.Observable):
         return selection
 
     def release_selection(self, selection):
-        self.__selections.remove(selection)
+        # selections with the same indexes are equal, so find this very selection
+        del self.__selections[[id(selection_) for selection_ in self.__selections].index(id(selection))]
 
     # almost thread safe. assumes child items will not change duing this call.
     def __master_item_inserted(self, key, item, before_index):
-- 
2.43.0


From 03aa6c43874397d5f6344ee7cc52f7de1d828717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:50 +0000
Subject: [PATCH 11/55] fix: UUID and datetime converters convert None back to
 None

---
 nion/utils/Converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index b5dda3d..602d2af 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -139,7 +139,7 @@ class UuidToStringConverter:
     def convert(self, value):
         return str(value) if value else None
     def convert_back(self, value):
-        if re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}",
+        if value is not None and re.fullmatch("[0-9A-F]{8}-[0-9A-F]{4}-4[0-9A-F]{3}-[89AB][0-9A-F]{3}-[0-9A-F]{12}",
                         value.strip(), re.IGNORECASE) is not None:
             return uuid.UUID(value.strip())
         return None
@@ -156,6 +156,8 @@ class DatetimeToStringConverter:
     def convert(self, value):
         return value.isoformat() if value is not None else None
     def convert_back(self, value):
+        if value is None:
+            return None
         try:
             if len(value) == 26:
                 return datetime.datetime.strptime(value, "%Y-%m-%dT%H:%M:%S.%f")
-- 
2.43.0


From 0f52b1ef41ad08bd38e161d826c1d0cceaa9c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:56 +0000
Subject: [PATCH 12/55] fix: physical value converters that pass None convert
 None back to None

---
 nion/utils/Converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index 602d2af..abc8ddf 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -120,7 +120,8 @@ class PhysicalValueToStringConverter:
 
     def convert_back(self, formatted_value):
         """ Convert string to value using standard float conversion """
-        return FloatToStringConverter().convert_back(formatted_value) / self.__multiplier
+        value = FloatToStringConverter(pass_none=self.__pass_none).convert_back(formatted_value)
+        return value / self.__multiplier if value is not None else None
 
 
 class CheckedToCheckStateConverter:
-- 
2.43.0


From 94bf0934a1c5d18fe78a20b984c38ae1ccfc910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:20 +0000
Subject: [PATCH 13/55] fix: scaled integer and percent converters round
 instead of truncating

---
 nion/utils/Converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index abc8ddf..b0a5bff 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -83,7 +83,7 @@ class FloatToScaledIntegerConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage int """
-        return int(self.n * (value - self.value_min) / (self.value_max - self.value_min))
+        return round(self.n * (value - self.value_min) / (self.value_max - self.value_min))
 
     def convert_back(self, value_int):
         """ Convert int percentage value to float """
@@ -95,7 +95,7 @@ class FloatToPercentStringConverter:
 
     def convert(self, value):
         """ Convert float between 0, 1 to percentage string """
-        return str(int(value * 100)) + "%"
+        return str(round(value * 100)) + "%"
 
     def convert_back(self, formatted_value):
         """ Convert percentage string to float between 0, 1 """
-- 
2.43.0


From 4fd9d4b6c05195728e76b8798960a66d38effdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:22 +0000
Subject: [PATCH 14/55] fix: fuzzy float entry accepts a comma after the digits
 in every locale

---
 nion/utils/Converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Converter.py b/nion/utils/Converter.py
index b0a5bff..05825fc 100644
--- a/nion/utils/Converter.py
+++ b/nion/utils/Converter.py
@@ -65,7 +65,11 @@ class FloatToStringConverter:
                 decimal_point = locale.localeconv().get("decimal_point", ".")
                 if decimal_point != '.':
                     return locale.atof(m.group(0).replace(".", decimal_point))
-                return locale.atof(m.group(0))
+                try:
+                    return locale.atof(m.group(0))
+                except ValueError:
+                    # a comma that the locale does not know is a decimal point, too
+                    return float(m.group(0).replace(",", "."))
             return 0.0
         else:
             decimal_point = locale.localeconv().get("decimal_point", ".")
-- 
2.43.0


From 09764990319dea386a4ac59cb75b9a531580c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:56 +0000
Subject: [PATCH 15/55] fix: deep copies of text filters work

---
 nion/utils/ListModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 95c736a..e5d7b3a 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -177,6 +177,7 @@ class TextFilter(Filter):
         result = super().__deepcopy__(memo)
         result.__key = self.__key
         result.__text = self.__text
+        result.__lower_text = self.__lower_text
         return result
 
     def matches(self, d) -> bool:
-- 
2.43.0


From e1ab675ce0971b2da37bfeb9dd8fc4c7b2a97faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:58 +0000
Subject: [PATCH 16/55] fix: clearing a single selection leaves only the first
 index selected

---
 nion/utils/Selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index 7dc5e85..e7ac856 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -77,7 +77,7 @@ class IndexedSelection:
     def clear(self) -> None:
         old_index = copy.copy(self.__indexes)
         if self.selection_style == Style.single:
-            self.__indexes.add(0)
+            self.__indexes = {0}
             self.__anchor_index = 0
         else:
             self.__indexes = set()
-- 
2.43.0


From 5886bf7d66666e6d3df4f9f381f8e53962f2eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 17/55] fix: extending a selection to its deselected anchor
 selects it

---
 nion/utils/Selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Selection.py b/nion/utils/Selection.py
index e7ac856..0011867 100644
--- a/nion/utils/Selection.py
+++ b/nion/utils/Selection.py
@@ -159,7 +159,7 @@ class IndexedSelection:
         if self.selection_style in (Style.multiple, ):
             old_index = copy.copy(self.__indexes)
             if self.__anchor_index is not None:
-                if index > self.__anchor_index:
+                if index >= self.__anchor_index:
                     for new_index in range(self.__anchor_index, index + 1):
                         self.__indexes.add(new_index)
                 elif index < self.__anchor_index:
-- 
2.43.0


From cc372392d01ef35457fdf4a94fd29b3afde796d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:02 +0000
Subject: [PATCH 18/55] fix: the first sample of a sampled stream is its
 input's value, not None

---
 nion/utils/Stream.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 1edc69c..f94569c 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -193,12 +193,11 @@ class SampleStream(AbstractStream):
         self.__input_stream = input_stream.add_ref()
         self.__period = period
         self.__last_time = 0
-        self.__pending_value = None
-        self.__value = None
-        self.__listener = input_stream.value_stream.listen(self.__value_changed)
-        self.__value = input_stream.value
         self.__value_dirty = True
         self.__value_dirty_lock = threading.RLock()
+        self.__value = input_stream.value
+        self.__pending_value = self.__value
+        self.__listener = input_stream.value_stream.listen(self.__value_changed)
         self.__done = False
 
         def next_sample(f):
-- 
2.43.0


From eb53fd3b63e72af55a70b813bf82359e4cb9966b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:26 +0000
Subject: [PATCH 19/55] fix: a sampled stream does not lose a value set from
 another thread while sampling

---
 nion/utils/Stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index f94569c..d1e62c6 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -222,14 +222,15 @@ class SampleStream(AbstractStream):
         with self.__value_dirty_lock:
             value_dirty = self.__value_dirty
             self.__value_dirty = False
+            pending_value = self.__pending_value
         if value_dirty:
-            self.__value = self.__pending_value
-            self.value_stream.fire(self.__pending_value)
+            self.__value = pending_value
+            self.value_stream.fire(pending_value)
 
     def __value_changed(self, value):
         with self.__value_dirty_lock:
             self.__value_dirty = True
-        self.__pending_value = value
+            self.__pending_value = value
 
     @property
     def value(self):
-- 
2.43.0


From 3bdeaeaca115887e9e5d5affa8f364955126dc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:40 +0000
Subject: [PATCH 20/55] fix: a debounced stream announces changes made by
 listeners of its announcements

---
 nion/utils/Stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index d1e62c6..3dc0298 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -168,9 +168,10 @@ class DebounceStream(AbstractStream):
     async def debounce_delay(self) -> None:
         try:
             await asyncio.sleep(self.__period)
-            self.value_stream.fire(self.__value)
         finally:
+            # clear the task first so that changes made by listeners start a new period.
             self.__debounce_task = None
+        self.value_stream.fire(self.__value)
 
     def __value_changed(self, value):
         self.__value = value
-- 
2.43.0


From cb4a8de9a362ae0e26ad669d6f3ea9e859643138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:19 +0000
Subject: [PATCH 21/55] fix: the value of a function stream model is never
 replaced by that of an older function

---
 nion/utils/Model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index bd5d120..fcf0b10 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -62,16 +62,23 @@ class FuncStreamValueModel(PropertyModel):
         self.__value_func_stream = value_func_stream.add_ref()
         self.__event_loop = event_loop
         self.__count = 0
+        self.__sequence = 0  # sequence number of the latest function
+        self.__value_sequence = 0  # sequence number of the function which produced the value
 
         def handle_value_func(value_func):
+            self.__sequence += 1
+            sequence = self.__sequence
             async def update_value():
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
                 await event_loop.run_in_executor(None, eval, value_ref)
                 value = value_ref[0]
-                self.value = value
-                self.notify_property_changed("value")
+                # functions may finish in any order; ignore the value if a newer one has already been set.
+                if sequence > self.__value_sequence:
+                    self.__value_sequence = sequence
+                    self.value = value
+                    self.notify_property_changed("value")
                 self.__count -= 1
             self.__count += 1
             event_loop.create_task(update_value())
-- 
2.43.0


From fbc057c8dd44440f5d0e945a2eb46820c745f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:43 +0000
Subject: [PATCH 22/55] fix: persistent objects with hidden items can be deep
 copied

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 7f76fe1..32d96c2 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -393,7 +393,7 @@ class PersistentObject:
             new_value = copy.deepcopy(value)
             self._set_persistent_property_value(key, new_value)
         for key in self.__items.keys():
-            self.set_item(key, copy.deepcopy(getattr(item, key)))
+            self.set_item(key, copy.deepcopy(item.get_item(key)))
         for key in self.__relationships.keys():
             for child_item in getattr(item, key):
                 self.append_item(key, copy.deepcopy(child_item, memo))
-- 
2.43.0


From 4004c0f38f775e192806508d7aaa7a7d54b63ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:45 +0000
Subject: [PATCH 23/55] fix: subscribing to a registered object without a
 registered function works

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 32d96c2..c959991 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -222,7 +222,7 @@ class PersistentObjectContext:
         self.__subscriptions.setdefault(object_uuid, list()).append((registered, unregistered))
         weak_object = self.__objects.get(object_uuid)
         object = weak_object and weak_object()
-        if object is not None:
+        if object is not None and registered:
             registered(object)
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
-- 
2.43.0


From c57a2cad862cffdb705ec73f779c14033f6759ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:47 +0000
Subject: [PATCH 24/55] fix: relationship items are stored under the
 relationship's storage key

---
 nion/utils/Persistence.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index c959991..2fd07c5 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -432,8 +432,10 @@ class PersistentObject:
         if persistent_object_parent.item_name:
             return lambda storage_dict: storage_dict.get(persistent_object_parent.item_name, dict())
         if persistent_object_parent.relationship_name:
-            index = getattr(persistent_object_parent.parent, persistent_object_parent.relationship_name).index(self)
-            return lambda storage_dict: storage_dict[persistent_object_parent.relationship_name][index]
+            parent = persistent_object_parent.parent
+            index = getattr(parent, persistent_object_parent.relationship_name).index(self)
+            storage_key = parent.__relationships[persistent_object_parent.relationship_name].storage_key
+            return lambda storage_dict: storage_dict[storage_key][index]
         return None
 
     def define_type(self, type):
@@ -709,7 +711,7 @@ class PersistentObject:
         # the persistent_object_parent and relationship need to be established before
         # calling item_inserted.
         if self.persistent_object_context:
-            self.persistent_object_context.item_inserted(self, name, before_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_inserted(self, relationship.storage_key, before_index, item)  # this will also update item's persistent_object_context
         if relationship.insert:
             relationship.insert(name, before_index, item)
 
@@ -727,7 +729,7 @@ class PersistentObject:
             relationship.remove(name, item_index, item)
         item.persistent_object_context = None
         if self.persistent_object_context:
-            self.persistent_object_context.item_removed(self, name, item_index, item)  # this will also update item's persistent_object_context
+            self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
         item.persistent_object_parent = None
 
     def extend_items(self, name, items):
-- 
2.43.0


From 2f19b9be1ee73d26ee0b0f91a0167382fe1ceb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:43 +0000
Subject: [PATCH 25/55] fix: clearing a persistent property clears its storage
 key

---
 nion/utils/Persistence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 2fd07c5..6a175c8 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -596,7 +596,7 @@ class PersistentObject:
                 for property_key in properties:
                     self.persistent_object_context.property_changed(self, property_key, properties[property_key])
             else:
-                self.persistent_object_context.clear_property(self, name)
+                self.persistent_object_context.clear_property(self, property.key)
 
     def __update_modified(self, modified):
         self.__modified_count += 1
-- 
2.43.0


From 5e6ae0f009a484ba6adf4c2f9cb36c1ac6d9d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:46 +0000
Subject: [PATCH 26/55] fix: an item that is replaced or cleared is detached
 from its parent and context

---
 nion/utils/Persistence.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 6a175c8..9e01165 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -684,6 +684,10 @@ class PersistentObject:
         old_value = item.value
         item.value = value
         self.__update_modified(datetime.datetime.utcnow())
+        # the old item is no longer part of this object.
+        if old_value:
+            old_value.persistent_object_context = None
+            old_value.persistent_object_parent = None
         if value:
             value.persistent_object_parent = PersistentObjectParent(self, item_name=name)
         # the persistent_object_parent and item need to be established before
-- 
2.43.0


From be706621f592505af14b2eeffc73424317e1c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:16 +0000
Subject: [PATCH 27/55] fix: unregistering a component from all types announces
 those types

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 79279bf..2091879 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -60,7 +60,7 @@ class ComponentManager(metaclass=Singleton):
         self.component_registered_event.fire(component, component_types)
 
     def unregister(self, component, component_types: typing.Set[str] = None) -> None:
-        component_types = component_types if component_types is not None else self.__component_types[component]
+        component_types = component_types if component_types is not None else set(self.__component_types[component])
         for component_type in component_types:
             assert component in self.__components_by_type.get(component_type, set())
         for component_type in component_types:
-- 
2.43.0


From 37399c43d8ad1d2ab7648fa072dac3ebace46fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:21 +0000
Subject: [PATCH 28/55] fix: looking up a single component gives one with the
 highest priority

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 2091879..194c0cb 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -93,7 +93,7 @@ def get_component(component_type: str) -> typing.Optional[typing.Any]:
     sorted_components = sorted(components, key=attrgetter("priority", 50), reverse=True)
 
     if len(sorted_components) > 0:
-        return tuple(components)[0]
+        return sorted_components[0]
 
     return None
 
-- 
2.43.0


From a5c8aa1c5059bc6afbd472d4571851c18384fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:33 +0000
Subject: [PATCH 29/55] fix: array models can be closed

---
 nion/utils/StructuredModel.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 851f601..ccf384e 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -258,8 +258,7 @@ class ArrayModel(ListModelModule.ListModel):
             self.__model_changed_listeners.append(trampoline)
 
     def close(self):
-        for index, item in enumerate(self.items()):
-            trampoline = self.__model_changed_listeners[index]
+        for trampoline in self.__model_changed_listeners:
             if trampoline:
                 trampoline.close()
         self.__model_changed_listeners = list()
-- 
2.43.0


From d83b3f3189d14c58e8217d3b2ace0f072c8ae642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:54 +0000
Subject: [PATCH 30/55] fix: structured models accept the float type

---
 nion/utils/StructuredModel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index ccf384e..616a331 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -62,10 +62,10 @@ def define_array(items: MDescription) -> MDescription:
 
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return FieldPropertyModel(default_value if default_value is not None else value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
@@ -76,10 +76,10 @@ def build_model(schema: MDescription, *, default_value=None, value=None):
 
 
 def build_value(schema: MDescription, *, value=None):
-    if schema in ("string", "boolean", "int", "float"):
+    if schema in ("string", "boolean", "int", "float", "double"):
         return value
     type = typing.cast(dict, schema).get("type")
-    if type in ("string", "boolean", "int", "float"):
+    if type in ("string", "boolean", "int", "float", "double"):
         return value
     elif type == "record":
         return RecordModel(schema, values=value)
-- 
2.43.0


From 0abe68c64ba544b44f92947dc5d4ee35ed970d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:00 +0000
Subject: [PATCH 31/55] fix: a value given for a structured model field takes
 precedence over its default

---
 nion/utils/StructuredModel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 616a331..c4ccbc0 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -63,10 +63,10 @@ def define_array(items: MDescription) -> MDescription:
 
 def build_model(schema: MDescription, *, default_value=None, value=None):
     if schema in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     type = typing.cast(dict, schema).get("type")
     if type in ("string", "boolean", "int", "float", "double"):
-        return FieldPropertyModel(default_value if default_value is not None else value)
+        return FieldPropertyModel(value if value is not None else default_value)
     elif type == "record":
         record_values = copy.copy(default_value or dict())
         record_values.update(value or dict())
-- 
2.43.0


From 45ebbb9e7bff1c5338e4dd86b5107a3ae8626c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:35 +0000
Subject: [PATCH 32/55] fix: array models of simple values can be converted to
 and updated from dicts, with announcements

---
 nion/utils/StructuredModel.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index c4ccbc0..eb30d08 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -272,18 +272,21 @@ class ArrayModel(ListModelModule.ListModel):
         self.from_dict_value(array.to_dict_value())
 
     def from_dict_value(self, values):
-        while len(values) > len(self.items):
-            item_schema = self.schema["items"]
-            self.items.append(build_value(item_schema))
         while len(values) < len(self.items):
-            del self.items[-1]
-        for value, item in zip(values, self.items):
-            item.from_dict_value(value)
+            self.remove_item(len(self.items) - 1)
+        for index, (value, item) in enumerate(zip(values, list(self.items))):
+            if isinstance(item, (RecordModel, ArrayModel)):
+                item.from_dict_value(value)
+            elif item != value:
+                self.remove_item(index)
+                self.insert_item(index, value)
+        for value in values[len(self.items):]:
+            self.append_item(build_value(self.schema["items"], value=value))
 
     def to_dict_value(self) -> typing.Optional[typing.Any]:
         l = list()
         for item in self.items:
-            l.append(item.to_dict_value())
+            l.append(item.to_dict_value() if isinstance(item, (RecordModel, ArrayModel)) else item)
         return l
 
     @property
-- 
2.43.0


From 9a1c86ea8641c2cdf4abb43a2e9e9f515849763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:17 +0000
Subject: [PATCH 33/55] fix: membership can be tested for array fields

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index eb30d08..8b8b4f9 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -226,7 +226,7 @@ class ItemsSequence(collections.abc.MutableSequence):
         self.__list_model.remove_item(key)
 
     def __contains__(self, item):
-        return self.__list_model.items.contains(item)
+        return item in self.__list_model.items
 
     def insert(self, index, value):
         self.__list_model.insert_item(index, value)
-- 
2.43.0


From 5ed79907f906b53ce95247e3867088ae26d56eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:20 +0000
Subject: [PATCH 34/55] fix: array models keep their item listeners in the
 order of the items

---
 nion/utils/StructuredModel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 8b8b4f9..0c3f10b 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -299,7 +299,7 @@ class ArrayModel(ListModelModule.ListModel):
         trampoline = None
         if isinstance(value, (RecordModel, ArrayModel)):
             trampoline = value.model_changed_event.listen(self.model_changed_event.fire)
-        self.__model_changed_listeners.append(trampoline)
+        self.__model_changed_listeners.insert(before_index, trampoline)
         self.model_changed_event.fire()
 
     def notify_remove_item(self, key, value, index):
-- 
2.43.0


From 15a710c9030406e6bcd72630a0021067f91b8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:09 +0000
Subject: [PATCH 35/55] fix: make_pretty of numbers just below a power of ten
 at or below one

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 90d1ae6..9596894 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -29,7 +29,7 @@ def make_pretty(val, rounding):
     val_norm = abs(val) / factor10  # between 1 and 10
     if val_norm < 1.0:
         val_norm = val_norm * 10
-        factor10 = factor10 // 10
+        factor10 = factor10 / 10
     if rounding:
         if val_norm < 1.5:
             val_norm = 1.0
-- 
2.43.0


From 289ab8ddd432a5237b6486b6d03ccb6e88b66911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:42 +0000
Subject: [PATCH 36/55] fix: distinct labels for the ticks of large or small
 negative ranges

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index 9596894..badee2a 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -180,7 +180,7 @@ class LinearTicker(Ticker):
     def __nice_label(self, value: float, precision: int, factor10: float) -> str:
         f10 = int(math.log10(factor10)) if factor10 > 0 else 0
         if abs(f10) > 5:
-            f10x = int(math.log10(value)) if value > 0 else f10
+            f10x = int(math.log10(abs(value))) if value != 0 else f10
             precision = max(0, f10x - f10)
             return (u"{0:0." + u"{0:d}".format(precision) + "e}").format(value)
         else:
-- 
2.43.0


From 5436a0e08440504e7e2cda7e21065929a9495c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:33 +0000
Subject: [PATCH 37/55] fix: maximum of a logarithmic ticker is not below the
 data

---
 nion/utils/Geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Geometry.py b/nion/utils/Geometry.py
index badee2a..f2a71a0 100755
--- a/nion/utils/Geometry.py
+++ b/nion/utils/Geometry.py
@@ -249,7 +249,7 @@ class LogTicker(Ticker):
         self._tick_values = [math.log(value, self.base) for value in tick_values]
 
          # Revert maximum to its original value because it is used for auto display limits
-        self._maximum *= self._factor_b
+        self._maximum = max(self._maximum * self._factor_b, self._value_high)
         # Set minimum slightly lower than the data minimum because it is used for auto display limits
         self._minimum = self._value_low - (self._maximum - self._value_low) * 0.01
 
-- 
2.43.0


From f13266cded87fa6bc757d6d8c367ce9b5be0e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:51 +0000
Subject: [PATCH 38/55] fix: waiting trigger of a thread dispatcher returns if
 the function raises

---
 nion/utils/ThreadPool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index afbd87b..c9b846a 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -76,12 +76,13 @@ class ThreadDispatcher(object):
                 break
             try:
                 self.__fn()
-                self.__triggered_event.set()
             except Exception as e:
                 import traceback
                 logging.debug("Processing thread exception %s", e)
                 traceback.print_exc()
                 traceback.print_stack()
+            finally:
+                self.__triggered_event.set()
             self.__last_time = time.time()
 
 
-- 
2.43.0


From 227cc50aeb8135029e1f0aaefc46c5d064ba0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:26 +0000
Subject: [PATCH 39/55] fix: recorder logs positions and values at the time of
 each change, and set items

---
 nion/utils/Recorder.py | 70 +++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 5ece3c7..4fd20b5 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -1,6 +1,5 @@
 import collections
 import copy
-import functools
 import typing
 
 
@@ -11,9 +10,10 @@ class Recorder:
     # TODO: make changes resilient... what happens if underlying object changes and recorder can't be applied?
     # TODO: thread safety
 
-    def __init__(self, object, accessor_fn: AccessorType=None, logger=None):
+    def __init__(self, object, accessor_fn: AccessorType=None, logger=None, *, get_accessor_fn: typing.Callable[[], AccessorType]=None):
         self.__object = object
-        self.__accessor_fn = accessor_fn if accessor_fn else lambda x: x  # type: AccessorType
+        # get_accessor_fn returns the accessor function for the current position of object, which may change while recording.
+        self.__get_accessor_fn = get_accessor_fn if get_accessor_fn else lambda: accessor_fn if accessor_fn else lambda x: x
         self.__logger = logger if logger is not None else list()
         self.__property_changed_event_listener = object.property_changed_event.listen(self.__property_changed)
         self.__item_set_event_listener = object.item_set_event.listen(self.__item_set)
@@ -23,17 +23,26 @@ class Recorder:
         self.__item_recorders = dict()
         self.__relationship_recorders = collections.defaultdict(list)
         for key in object.item_names:
-            item = getattr(object, key)
+            item = object.get_item(key)
             if item:
-                def item_accessor(key, x):
-                    return getattr(self.__accessor_fn(x), key)
-                self.__item_recorders[key] = Recorder(item, functools.partial(item_accessor, key), self.__logger)
+                self.__item_recorders[key] = self.__make_item_recorder(key, item)
         for key in object.relationship_names:
-            items = getattr(object, key)
-            for index, item in enumerate(items):
-                def item_index_accessor(key: str, index: int, x):
-                    return getattr(self.__accessor_fn(x), key)[index]
-                self.__relationship_recorders[key].append(Recorder(item, functools.partial(item_index_accessor, key, index), self.__logger))
+            for item in getattr(object, key):
+                self.__relationship_recorders[key].append(self.__make_relationship_recorder(key, item))
+
+    def __make_item_recorder(self, key, item) -> "Recorder":
+        def get_accessor_fn() -> AccessorType:
+            accessor_fn = self._accessor_fn
+            return lambda x: accessor_fn(x).get_item(key)
+        return Recorder(item, logger=self.__logger, get_accessor_fn=get_accessor_fn)
+
+    def __make_relationship_recorder(self, key, item) -> "Recorder":
+        def get_accessor_fn() -> AccessorType:
+            accessor_fn = self._accessor_fn
+            index = self.__relationship_recorders[key].index(recorder)
+            return lambda x: getattr(accessor_fn(x), key)[index]
+        recorder = Recorder(item, logger=self.__logger, get_accessor_fn=get_accessor_fn)
+        return recorder
 
     def close(self):
         self.__property_changed_event_listener.close()
@@ -60,44 +69,41 @@ class Recorder:
 
     @property
     def _accessor_fn(self) -> AccessorType:
-        return self._accessor_fn
+        return self.__get_accessor_fn()
 
-    @_accessor_fn.setter
-    def _accessor_fn(self, value: AccessorType) -> None:
-        self._accessor_fn = value
+    # the functions below log the change with the position and values at the time of the change. the position and values
+    # may both have changed again by the time the changes get applied.
 
     def __property_changed(self, key):
         if self.__object._is_persistent_property_recordable(key):
-            def property_setter(x):
-                setattr(self.__accessor_fn(x), key, getattr(self.__object, key))
+            accessor_fn = self._accessor_fn
+            value = copy.deepcopy(getattr(self.__object, key))
             # print("set property {} {}".format(key, value))
-            self.__logger.append(property_setter)
+            self.__logger.append(lambda x: setattr(accessor_fn(x), key, copy.deepcopy(value)))
 
     def __item_set(self, key, item):
-        item_recorder = self.__item_recorders.pop(key)
+        item_recorder = self.__item_recorders.pop(key, None)
         if item_recorder:
             item_recorder.close()
-        item = getattr(self.__accessor_fn(), key)
         if item:
-            self.__item_recorders[key] = Recorder(item, lambda x: getattr(self.__accessor_fn(x), key), self.__logger)
+            self.__item_recorders[key] = self.__make_item_recorder(key, item)
+        accessor_fn = self._accessor_fn
+        item = copy.deepcopy(item)
         # print("set {} {}".format(key, item))
-        self.__logger.append(lambda x: setattr(self.__accessor_fn(x), key, item))
+        self.__logger.append(lambda x: accessor_fn(x).set_item(key, copy.deepcopy(item)))
 
     def __item_cleared(self, key):
         self.__item_set(key, None)
 
     def __item_inserted(self, key, value, before_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index >= before_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index + 1]
-        self.__relationship_recorders[key].insert(before_index, Recorder(value, lambda x: getattr(self.__accessor_fn(x), key)[before_index], self.__logger))
+        self.__relationship_recorders[key].insert(before_index, self.__make_relationship_recorder(key, value))
+        accessor_fn = self._accessor_fn
+        value = copy.deepcopy(value)
         # print("append {} {} {}".format(key, value, before_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
+        self.__logger.append(lambda x: accessor_fn(x).insert_item(key, before_index, copy.deepcopy(value)))
 
     def __item_removed(self, key, value, item_index):
-        for index, relationship_recorder in enumerate(self.__relationship_recorders[key]):
-            if index > item_index:
-                relationship_recorder._accessor_fn = lambda x: getattr(self.__accessor_fn(x), key)[index - 1]
         self.__relationship_recorders[key].pop(item_index).close()
+        accessor_fn = self._accessor_fn
         # print("remove {} {} {}".format(key, value, item_index))
-        self.__logger.append(lambda x: self.__accessor_fn(x).remove_item(key, getattr(self.__accessor_fn(x), key)[item_index]))
+        self.__logger.append(lambda x: accessor_fn(x).remove_item(key, getattr(accessor_fn(x), key)[item_index]))
-- 
2.43.0


From f95edb3a0004083ae4bd570fc112894c35922df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:26 +0000
Subject: [PATCH 40/55] fix: selections of a filtered list follow its items
 through the first group of changes

---
 nion/utils/ListModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index e5d7b3a..39e6766 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -612,12 +612,16 @@ class FilteredListModel(Observable.Observable):
             if hasattr(self.__container, "reset_list_event"):
 
                 def reset_list(key):
-                    self.__items_sorted = False
+                    # items stay sorted unless the edits that follow are deferred to the end of a group of changes
+                    if self.__change_level > 0:
+                        self.__items_sorted = False
                     self.reset_list_event.fire(self.__items_key)
 
                 self.__reset_list_event_listener = self.__container.reset_list_event.listen(reset_list)
             for index, item in enumerate(getattr(self.__container, self.__master_items_key)):
                 self.__item_inserted(self.__master_items_key, item, index)
+            # the items have been inserted in order; a group of changes does not need to replace all of them
+            self.__items_sorted = True
 
     def make_selection(self):
         selection = Selection.IndexedSelection()
-- 
2.43.0


From 848c0947d897a25a66f60d2646c3783296170771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:22 +0000
Subject: [PATCH 41/55] fix: fire_all no longer counts a listener being closed
 by another thread as a false result

---
 nion/utils/Event.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Event.py b/nion/utils/Event.py
index fcb23ca..1df5194 100644
--- a/nion/utils/Event.py
+++ b/nion/utils/Event.py
@@ -140,8 +140,9 @@ class Event:
                 with self.__weak_listeners_mutex:
                     listeners = [weak_listener() for weak_listener in self.__weak_listeners]
                 for listener in listeners:
-                    if listener and not listener.closed:
-                        if not listener.call(*args, **keywords):
+                    if listener:
+                        call = listener.call  # get this first: another thread may close the listener at any time
+                        if not listener.closed and not call(*args, **keywords):
                             return False
                 return True
             except Exception as e:
-- 
2.43.0


From 482d1bd79d0e9c1ad7e15acb081450ba13f21b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:31 +0000
Subject: [PATCH 42/55] fix: looking up components returns a copy, so that they
 can be registered or unregistered while it is used

---
 nion/utils/Registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Registry.py b/nion/utils/Registry.py
index 194c0cb..d2d6028 100644
--- a/nion/utils/Registry.py
+++ b/nion/utils/Registry.py
@@ -48,7 +48,7 @@ class ComponentManager(metaclass=Singleton):
         return self.__components_by_type
 
     def get_components_by_type(self, component_type:str) -> typing.Set[typing.Any]:
-        return self.__components_by_type.get(component_type, list())
+        return set(self.__components_by_type.get(component_type, set()))  # a copy: components may get registered while it is being used
 
     def register(self, component, component_types: typing.Set[str]) -> None:
         for component_type in component_types:
-- 
2.43.0


From 9ab3a0b3e573a1348e5bc9afe0d24e454b4be0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:38 +0000
Subject: [PATCH 43/55] fix: groups of list changes can be begun by several
 threads

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 39e6766..a01aed8 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -274,7 +274,8 @@ class FilteredListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        self.__change_level += 1
+        with self._update_mutex:
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
@@ -691,9 +692,10 @@ class MappedListModel(Observable.Observable):
 
     def begin_change(self):
         """ Begin a set of changes. Balance with end_changes. """
-        if self.__change_level == 0:
-            self.begin_changes_event.fire(self.__items_key)
-        self.__change_level += 1
+        with self._update_mutex:
+            if self.__change_level == 0:
+                self.begin_changes_event.fire(self.__items_key)
+            self.__change_level += 1
 
     def end_change(self):
         """ End a set of changes and update items if finished. """
-- 
2.43.0


From b97ab94f1336d60010aeba27b7056787b4f78301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:22 +0000
Subject: [PATCH 44/55] fix: items inserted by another thread while a filter is
 being set are put in their place

---
 nion/utils/ListModel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index a01aed8..cb847cb 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -341,10 +341,12 @@ class FilteredListModel(Observable.Observable):
     @filter.setter
     def filter(self, value: Filter) -> None:
         """ Set the filter function. """
-        self.__filter = value
-        self.__items_sorted = False
-        self.reset_list_event.fire(self.__items_key)
-        self.__update_items()
+        # update within the mutex: items inserted by another thread must not see the new filter with the old items
+        with self._update_mutex:
+            self.__filter = value
+            self.__items_sorted = False
+            self.reset_list_event.fire(self.__items_key)
+            self.__update_items()
 
     @property
     def items(self) -> typing.Sequence:
-- 
2.43.0


From 0c953d894cd7746247b543991cd5f3f3cbb51522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:11 +0000
Subject: [PATCH 45/55] fix: children of different masters of a flattened list
 can be edited by different threads

---
 nion/utils/ListModel.py | 48 ++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index cb847cb..beb4dbd 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -914,30 +914,34 @@ class FlattenedListModel(Observable.Observable):
                 del self.__child_item_removed_event_listener[item]
                 assert not item in self.__master_items, "master item still in " + str(self.__master_items_key) + " (" + str(self.__items_key) + " / " + str(self.__child_items_key) + ")"
 
+    # thread safe.
     def __child_item_inserted(self, master_item, key, item, before_index):
         if key == self.__child_items_key:
-            master_index = 0
-            for master_item_ in self.__master_items:
-                if master_item_ == master_item:
-                    break
-                master_index += len(self.__children.get(master_item_, list()))
-            master_index += before_index
-            self.__children.setdefault(master_item, list()).insert(before_index, item)
-            self.__items.insert(master_index, item)
-            self.notify_insert_item(self.__items_key, item, master_index)
-            for selection in self.__selections:
-                selection.insert_index(master_index)
+            with self._update_mutex:
+                master_index = 0
+                for master_item_ in self.__master_items:
+                    if master_item_ == master_item:
+                        break
+                    master_index += len(self.__children.get(master_item_, list()))
+                master_index += before_index
+                self.__children.setdefault(master_item, list()).insert(before_index, item)
+                self.__items.insert(master_index, item)
+                self.notify_insert_item(self.__items_key, item, master_index)
+                for selection in self.__selections:
+                    selection.insert_index(master_index)
 
+    # thread safe.
     def __child_item_removed(self, master_item, key, item, index):
         if key == self.__child_items_key:
-            master_index = 0
-            for master_item_ in self.__master_items:
-                if master_item_ == master_item:
-                    break
-                master_index += len(self.__children.get(master_item_, list()))
-            master_index += index
-            del self.__children[master_item][index]
-            del self.__items[master_index]
-            self.notify_remove_item(self.__items_key, item, master_index)
-            for selection in self.__selections:
-                selection.remove_index(master_index)
+            with self._update_mutex:
+                master_index = 0
+                for master_item_ in self.__master_items:
+                    if master_item_ == master_item:
+                        break
+                    master_index += len(self.__children.get(master_item_, list()))
+                master_index += index
+                del self.__children[master_item][index]
+                del self.__items[master_index]
+                self.notify_remove_item(self.__items_key, item, master_index)
+                for selection in self.__selections:
+                    selection.remove_index(master_index)
-- 
2.43.0


From 3147c5e0e95cb94b856bdea3f71d81a47b3130e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 46/55] fix: derived lists follow containers that are falsy,
 such as ones with a length of zero

---
 nion/utils/ListModel.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index beb4dbd..149a7df 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -578,7 +578,7 @@ class FilteredListModel(Observable.Observable):
     # thread safe.
     @container.setter
     def container(self, container):
-        if self.__container:
+        if self.__container is not None:
             self.__item_inserted_event_listener.close()
             self.__item_inserted_event_listener = None
             self.__item_removed_event_listener.close()
@@ -597,7 +597,7 @@ class FilteredListModel(Observable.Observable):
         self.__container = container
         self.__items_sorted = False
         self.reset_list_event.fire(self.__items_key)
-        if self.__container:
+        if self.__container is not None:
             self.__item_inserted_event_listener = self.__container.item_inserted_event.listen(self.__item_inserted)
             self.__item_removed_event_listener = self.__container.item_removed_event.listen(self.__item_removed)
             if hasattr(self.__container, "begin_changes_event") and hasattr(self.__container, "end_changes_event"):
@@ -749,7 +749,7 @@ class MappedListModel(Observable.Observable):
     @container.setter
     def container(self, container):
         # remove old master items
-        if self.__container:
+        if self.__container is not None:
             self.__item_inserted_event_listener.close()
             self.__item_inserted_event_listener = None
             self.__item_removed_event_listener.close()
@@ -764,7 +764,7 @@ class MappedListModel(Observable.Observable):
                 self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)
         # add new master items
         self.__container = container
-        if self.__container:
+        if self.__container is not None:
             self.__item_inserted_event_listener = self.__container.item_inserted_event.listen(self.__master_item_inserted)
             self.__item_removed_event_listener = self.__container.item_removed_event.listen(self.__master_item_removed)
             if hasattr(self.__container, "begin_changes_event") and hasattr(self.__container, "end_changes_event"):
@@ -860,7 +860,7 @@ class FlattenedListModel(Observable.Observable):
     @container.setter
     def container(self, container):
         # remove old master items
-        if self.__container:
+        if self.__container is not None:
             self.__item_inserted_event_listener.close()
             self.__item_inserted_event_listener = None
             self.__item_removed_event_listener.close()
@@ -869,7 +869,7 @@ class FlattenedListModel(Observable.Observable):
                 self.__master_item_removed(self.__master_items_key, item, len(self.__master_items) - 1)
         # add new master items
         self.__container = container
-        if self.__container:
+        if self.__container is not None:
             self.__item_inserted_event_listener = self.__container.item_inserted_event.listen(self.__master_item_inserted)
             self.__item_removed_event_listener = self.__container.item_removed_event.listen(self.__master_item_removed)
             for index, item in enumerate(getattr(self.__container, self.__master_items_key)):
-- 
2.43.0


From e3856def668034ea1d54acc02e654209054d33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:17 +0000
Subject: [PATCH 47/55] fix: property streams observe source objects that are
 falsy

---
 nion/utils/Stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nion/utils/Stream.py b/nion/utils/Stream.py
index 3dc0298..a6ecfec 100644
--- a/nion/utils/Stream.py
+++ b/nion/utils/Stream.py
@@ -283,7 +283,7 @@ class PropertyChangedEventStream(AbstractStream):
                 self.__property_changed_listener.close()
                 self.__property_changed_listener = None
             self.__source_object = source_object
-            if self.__source_object:
+            if self.__source_object is not None:
                 self.__property_changed_listener = self.__source_object.property_changed_event.listen(self.__property_changed)
                 self.__property_changed(property_name)
         self.__source_stream_listener = self.__source_stream.value_stream.listen(source_object_changed)
-- 
2.43.0


From 01607260926ebd8e3f7481f9cc285be5662fbfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:20 +0000
Subject: [PATCH 48/55] fix: persistent objects, contexts and storages that are
 falsy are not taken for absent

---
 nion/utils/Persistence.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 9e01165..5da5b25 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -227,7 +227,7 @@ class PersistentObjectContext:
 
     def _set_persistent_storage_for_object(self, object, persistent_storage):
         """ Set the persistent storage object associated with the object. """
-        if persistent_storage:
+        if persistent_storage is not None:
             def remove_object(weak_object):
                 del self.__persistent_storages[weak_object]
             weak_object = weakref.ref(object, remove_object)
@@ -415,14 +415,14 @@ class PersistentObject:
         self.__persistent_object_context = persistent_object_context
         for item_name in self.__items.keys():
             item_value = self.__items[item_name].value
-            if item_value:
+            if item_value is not None:
                 item_value.persistent_object_context = persistent_object_context
         for relationship_name in self.__relationships.keys():
             for item in self.__relationships[relationship_name].values:
                 item.persistent_object_context = persistent_object_context
-        if old_persistent_object_context:
+        if old_persistent_object_context is not None:
             old_persistent_object_context.unregister(self)
-        if persistent_object_context:
+        if persistent_object_context is not None:
             persistent_object_context.register(self)
         self.persistent_object_context_changed()
 
@@ -486,7 +486,7 @@ class PersistentObject:
     def _set_modified(self, modified):
         # for testing
         self.__update_modified(modified)
-        if self.persistent_object_context:
+        if self.persistent_object_context is not None:
             self.persistent_object_context.property_changed(self, "uuid", str(self.uuid))  # dummy write
 
     @property
@@ -505,7 +505,7 @@ class PersistentObject:
         # uuid is handled specially for performance reasons
         if "uuid" in properties:
             self.uuid = uuid.UUID(properties["uuid"])
-            if self.persistent_object_context:
+            if self.persistent_object_context is not None:
                 self.persistent_object_context.register(self)
         if "modified" in properties:
             self.__modified = datetime.datetime(*list(map(int, re.split('[^\d]', properties["modified"]))))
@@ -554,7 +554,7 @@ class PersistentObject:
     def finish_reading(self):
         for key in self.__items.keys():
             item = self.__items[key].value
-            if item:
+            if item is not None:
                 item.finish_reading()
         for key in self.__relationships.keys():
             for item in self.__relationships[key].values:
@@ -572,7 +572,7 @@ class PersistentObject:
             property.write_to_dict(properties)
         for key in self.__items.keys():
             item = self.__items[key].value
-            if item:
+            if item is not None:
                 properties[key] = item.write_to_dict()
         for key in self.__relationships.keys():
             storage_key = self.__relationships[key].storage_key
@@ -589,7 +589,7 @@ class PersistentObject:
             as delaying write until an appropriate time for performance reasons.
         """
         property = self.__properties[name]
-        if self.persistent_object_context:
+        if self.persistent_object_context is not None:
             properties = dict()
             property.write_to_dict(properties)
             if properties:
@@ -603,7 +603,7 @@ class PersistentObject:
         self.modified_state += 1
         self.__modified = modified
         parent = self.persistent_object_parent.parent if self.persistent_object_parent else None
-        if parent:
+        if parent is not None:
             parent.__update_modified(modified)
 
     def _get_persistent_property(self, name):
@@ -625,7 +625,7 @@ class PersistentObject:
     def _update_persistent_property(self, name: str, value) -> None:
         """ Subclasses can call this to notify that a custom property was updated. """
         self.__update_modified(datetime.datetime.utcnow())
-        if self.persistent_object_context:
+        if self.persistent_object_context is not None:
             self.persistent_object_context.property_changed(self, name, value)
 
     def _is_persistent_property_recordable(self, name) -> bool:
@@ -667,7 +667,7 @@ class PersistentObject:
         item = self.__items[name]
         old_value = item.value
         item.value = value
-        if value:
+        if value is not None:
             value.persistent_object_parent = PersistentObjectParent(self, item_name=name)
             value.persistent_object_context = self.persistent_object_context
         if item.item_changed:
@@ -685,14 +685,14 @@ class PersistentObject:
         item.value = value
         self.__update_modified(datetime.datetime.utcnow())
         # the old item is no longer part of this object.
-        if old_value:
+        if old_value is not None:
             old_value.persistent_object_context = None
             old_value.persistent_object_parent = None
-        if value:
+        if value is not None:
             value.persistent_object_parent = PersistentObjectParent(self, item_name=name)
         # the persistent_object_parent and item need to be established before
         # calling item_changed.
-        if self.persistent_object_context:
+        if self.persistent_object_context is not None:
             self.persistent_object_context.item_set(self, name, value)  # this will also update item's persistent_object_context
         if item.item_changed:
             item.item_changed(name, old_value, value)
@@ -714,7 +714,7 @@ class PersistentObject:
         item.persistent_object_parent = PersistentObjectParent(self, relationship_name=name)
         # the persistent_object_parent and relationship need to be established before
         # calling item_inserted.
-        if self.persistent_object_context:
+        if self.persistent_object_context is not None:
             self.persistent_object_context.item_inserted(self, relationship.storage_key, before_index, item)  # this will also update item's persistent_object_context
         if relationship.insert:
             relationship.insert(name, before_index, item)
@@ -732,7 +732,7 @@ class PersistentObject:
         if relationship.remove:
             relationship.remove(name, item_index, item)
         item.persistent_object_context = None
-        if self.persistent_object_context:
+        if self.persistent_object_context is not None:
             self.persistent_object_context.item_removed(self, relationship.storage_key, item_index, item)  # this will also update item's persistent_object_context
         item.persistent_object_parent = None
 
-- 
2.43.0


From 2eabbf868b33659212f52d1cb06530bc1fbce6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:21 +0000
Subject: [PATCH 49/55] fix: recorders follow items that are falsy

---
 nion/utils/Recorder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nion/utils/Recorder.py b/nion/utils/Recorder.py
index 4fd20b5..aac008e 100644
--- a/nion/utils/Recorder.py
+++ b/nion/utils/Recorder.py
@@ -24,7 +24,7 @@ class Recorder:
         self.__relationship_recorders = collections.defaultdict(list)
         for key in object.item_names:
             item = object.get_item(key)
-            if item:
+            if item is not None:
                 self.__item_recorders[key] = self.__make_item_recorder(key, item)
         for key in object.relationship_names:
             for item in getattr(object, key):
@@ -85,7 +85,7 @@ class Recorder:
         item_recorder = self.__item_recorders.pop(key, None)
         if item_recorder:
             item_recorder.close()
-        if item:
+        if item is not None:
             self.__item_recorders[key] = self.__make_item_recorder(key, item)
         accessor_fn = self._accessor_fn
         item = copy.deepcopy(item)
-- 
2.43.0


From e893b99b349d5fa8c10565182c0f1db92b995798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:18 +0000
Subject: [PATCH 50/55] fix: a subscriber that subscribes while it is told
 about an object is told once

---
 nion/utils/Persistence.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nion/utils/Persistence.py b/nion/utils/Persistence.py
index 5da5b25..73500c3 100644
--- a/nion/utils/Persistence.py
+++ b/nion/utils/Persistence.py
@@ -184,7 +184,8 @@ class PersistentObjectContext:
         object_uuid = object.uuid
         weak_object = weakref.ref(object)
         self.__objects[object_uuid] = weak_object
-        for registered, unregistered in self.__subscriptions.get(object_uuid, list()):
+        # use a copy since subscribers may subscribe again; they are told immediately when they do.
+        for registered, unregistered in copy.copy(self.__subscriptions.get(object_uuid, list())):
             if registered:
                 registered(object)
         self.registration_event.fire(object, None)
-- 
2.43.0


From 6862c2b318c0ecab14454bbb6ba23886268fa310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:10 +0000
Subject: [PATCH 51/55] fix: waiting for the evaluations of a function stream
 ends also if a function raised

---
 nion/utils/Model.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nion/utils/Model.py b/nion/utils/Model.py
index fcf0b10..7142c0a 100644
--- a/nion/utils/Model.py
+++ b/nion/utils/Model.py
@@ -72,14 +72,16 @@ class FuncStreamValueModel(PropertyModel):
                 value_ref = [None]
                 def eval(value_ref):
                     value_ref[0] = value_func()
-                await event_loop.run_in_executor(None, eval, value_ref)
-                value = value_ref[0]
-                # functions may finish in any order; ignore the value if a newer one has already been set.
-                if sequence > self.__value_sequence:
-                    self.__value_sequence = sequence
-                    self.value = value
-                    self.notify_property_changed("value")
-                self.__count -= 1
+                try:
+                    await event_loop.run_in_executor(None, eval, value_ref)
+                    value = value_ref[0]
+                    # functions may finish in any order; ignore the value if a newer one has already been set.
+                    if sequence > self.__value_sequence:
+                        self.__value_sequence = sequence
+                        self.value = value
+                        self.notify_property_changed("value")
+                finally:
+                    self.__count -= 1
             self.__count += 1
             event_loop.create_task(update_value())
 
-- 
2.43.0


From 0e8fe4a8bd49f59969ad07e3d9ec265c6872e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:33 +0000
Subject: [PATCH 52/55] fix: closing a thread dispatcher ends the wait of
 triggers that are not invoked anymore

---
 nion/utils/ThreadPool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/ThreadPool.py b/nion/utils/ThreadPool.py
index c9b846a..eba0162 100644
--- a/nion/utils/ThreadPool.py
+++ b/nion/utils/ThreadPool.py
@@ -42,12 +42,15 @@ class ThreadDispatcher(object):
             self.__thread_break = True
             self.__thread_event.set()
         self.__thread.join()
+        self.__triggered_event.set()  # nothing will be invoked anymore; do not keep anyone waiting
         self.__thread = None
         self.__fn = None
 
     def trigger(self, wait=False):
         if wait:
             with self.__thread_lock:
+                if self.__thread_break:
+                    return
                 self.__triggered_event.clear()
                 self.__thread_event.set()
             self.__triggered_event.wait()
-- 
2.43.0


From eb839e3e98b977442d9c9c1c151550b6ffd1239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:10 +0000
Subject: [PATCH 53/55] fix: list models announce the index of items inserted
 or removed with an index from the end

---
 nion/utils/ListModel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index 149a7df..b71100f 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -33,11 +33,14 @@ class ListModel(Observable.Observable, typing.Generic[T]):
             self.remove_item(len(self.__items) - 1)
 
     def insert_item(self, index: int, value: T) -> None:
+        # the index may be negative or beyond the end, as for list; announce the index where the item ends up
+        index = min(index, len(self.__items)) if index >= 0 else max(index + len(self.__items), 0)
         self.__items.insert(index, value)
         self.notify_insert_item(self.__key if self.__key else "items", value, index)
 
     def remove_item(self, index: int) -> None:
         value = self.__items[index]
+        index = index if index >= 0 else index + len(self.__items)
         del self.__items[index]
         self.notify_remove_item(self.__key if self.__key else "items", value, index)
 
-- 
2.43.0


From aa9dcacd4d6c127e5de9f63244f414517f9541e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:35 +0000
Subject: [PATCH 54/55] fix: parts of an array field can be deleted

---
 nion/utils/StructuredModel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nion/utils/StructuredModel.py b/nion/utils/StructuredModel.py
index 0c3f10b..fff048b 100644
--- a/nion/utils/StructuredModel.py
+++ b/nion/utils/StructuredModel.py
@@ -223,7 +223,11 @@ class ItemsSequence(collections.abc.MutableSequence):
         raise IndexError()
 
     def __delitem__(self, key):
-        self.__list_model.remove_item(key)
+        if isinstance(key, slice):
+            for index in sorted(range(len(self))[key], reverse=True):
+                self.__list_model.remove_item(index)
+        else:
+            self.__list_model.remove_item(key)
 
     def __contains__(self, item):
         return item in self.__list_model.items
-- 
2.43.0


From 10ef91d2f91878437412839ffe1caf9285a3396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:27 +0000
Subject: [PATCH 55/55] fix: lists stay balanced when their container is
 replaced within a group of its changes

---
 nion/utils/ListModel.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/nion/utils/ListModel.py b/nion/utils/ListModel.py
index b71100f..1a54fb7 100644
--- a/nion/utils/ListModel.py
+++ b/nion/utils/ListModel.py
@@ -266,6 +266,7 @@ class FilteredListModel(Observable.Observable):
         self.__reset_list_event_listener = None
         self.__begin_changes_event_listener = None
         self.__end_changes_event_listener = None
+        self.__container_change_level = 0  # changes begun by the container
         self.__selections = list()
         if selection:
             self.__selections.append(selection)
@@ -597,6 +598,10 @@ class FilteredListModel(Observable.Observable):
                 self.__reset_list_event_listener = None
             for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):
                 self.__item_removed(self.__master_items_key, item, len(self._get_master_items()) - 1)
+            # the end of changes begun by the old container will not be noticed anymore
+            while self.__container_change_level > 0:
+                self.__container_change_level -= 1
+                self.end_changes_event.fire(self.__items_key)
         self.__container = container
         self.__items_sorted = False
         self.reset_list_event.fire(self.__items_key)
@@ -607,10 +612,15 @@ class FilteredListModel(Observable.Observable):
 
                 def begin_changes(key):
                     if key == self.__master_items_key:
+                        with self._update_mutex:
+                            self.__container_change_level += 1
                         self.begin_changes_event.fire(self.__items_key)
 
                 def end_changes(key):
-                    if key == self.__master_items_key:
+                    # ignore the end of changes begun before this became the container
+                    if key == self.__master_items_key and self.__container_change_level > 0:
+                        with self._update_mutex:
+                            self.__container_change_level -= 1
                         self.end_changes_event.fire(self.__items_key)
 
                 self.__begin_changes_event_listener = self.__container.begin_changes_event.listen(begin_changes)
@@ -685,6 +695,7 @@ class MappedListModel(Observable.Observable):
         self.__item_removed_event_listener = None
         self.__begin_changes_event_listener = None
         self.__end_changes_event_listener = None
+        self.__container_change_level = 0  # changes begun by the container
         self.__selections = list()
         if selection:
             self.__selections.append(selection)
@@ -765,6 +776,10 @@ class MappedListModel(Observable.Observable):
                 self.__end_changes_event_listener = None
             for item in reversed(copy.copy(getattr(self.__container, self.__master_items_key))):
                 self.__master_item_removed(self.__master_items_key, item, len(self.__items) - 1)
+            # the end of changes begun by the old container will not be noticed anymore
+            while self.__container_change_level > 0:
+                self.__container_change_level -= 1
+                self.end_change()
         # add new master items
         self.__container = container
         if self.__container is not None:
@@ -774,10 +789,15 @@ class MappedListModel(Observable.Observable):
 
                 def begin_changes(key):
                     if key == self.__master_items_key:
+                        with self._update_mutex:
+                            self.__container_change_level += 1
                         self.begin_change()
 
                 def end_changes(key):
-                    if key == self.__master_items_key:
+                    # ignore the end of changes begun before this became the container
+                    if key == self.__master_items_key and self.__container_change_level > 0:
+                        with self._update_mutex:
+                            self.__container_change_level -= 1
                         self.end_change()
 
                 self.__begin_changes_event_listener = self.__container.begin_changes_event.listen(begin_changes)
-- 
2.43.0

