From 251c13b56cd921c7e8a8d2bda9e008495f0f3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:04 +0000
Subject: [PATCH 01/62] fix: step schedules reach the value of their last point

---
 hyperstate/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 950935b..7594186 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -15,7 +15,7 @@ T = TypeVar("T")
 INTERPOLATORS = {
     "lin": lambda x: 1 - x,
     "cos": lambda x: math.cos(x * math.pi) * 0.5 + 0.5,
-    "step": lambda _: 1,
+    "step": lambda x: 1 if x < 1 else 0,
 }
 
 
-- 
2.43.0


From 9add09aa13e8a9d8c7b6275523d61f7fd2b8c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:23 +0000
Subject: [PATCH 02/62] fix: schedules with a single point or a jump at the
 last position

---
 hyperstate/schedule.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 7594186..5777a12 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -46,7 +46,10 @@ class PiecewiseFunction:
             if x < s.end:
                 break
         assert segment is not None
-        rescaled = (x - segment.start) / (segment.end - segment.start)
+        if segment.start == segment.end:
+            rescaled = 0.0 if x < segment.start else 1.0
+        else:
+            rescaled = (x - segment.start) / (segment.end - segment.start)
         if rescaled < 0:
             rescaled = 0
         elif rescaled > 1:
@@ -92,4 +95,15 @@ def _parse_schedule(schedule: str) -> PiecewiseFunction:
             last_x, last_y = x, y
         else:
             interpolator = INTERPOLATORS[part]
+    if len(segments) == 0 and last_x is not None:
+        # A single point is a constant schedule.
+        segments.append(
+            ScheduleSegment(
+                start=last_x,
+                initial_value=last_y,
+                end=last_x,
+                final_value=last_y,
+                interpolator=interpolator,
+            )
+        )
     return PiecewiseFunction(segments, xname)
-- 
2.43.0


From a39bb3d31ffe18479ffd0f25d396e8362cc30601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 03/62] fix: enums are dumped by value, as they are loaded

---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 06fcacf..d81871b 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -122,7 +122,7 @@ def asdict(
             for i, v in enumerate(value)
         )
     elif isinstance(value, Enum):
-        return value.name
+        return value.value
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From a048de4cb27e26b133592f636a374c7d467bd749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 04/62] fix: schedules nested three or more levels deep

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bf6602..eb9a7c2 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -438,7 +438,7 @@ class ScheduleDeserializer(Deserializer):
             for segment in path.split(".")[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
-                schedules = self.schedules[segment]
+                schedules = schedules[segment]
             schedules[field_name] = Schedule(update, value)
             value = schedule.get_value(0.0)
             return cls(value), True, False  # type: ignore
-- 
2.43.0


From d236e4b59f58fff765bd40d5f3d5b0ca8d7265ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 05/62] fix: reject overrides of boolean fields that are not
 booleans

---
 hyperstate/hyperstate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index eb9a7c2..200ee2c 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -398,6 +398,10 @@ class OverridesDeserializer(Deserializer):
                     or str_val == "F"
                 ):
                     val = False
+                else:
+                    raise ValueError(
+                        f"Invalid override: {override}. Expected a boolean value"
+                    )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-- 
2.43.0


From 096692414d8d72b5d8cc54cf9f4e33770e1bb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 06/62] fix: keep the checkpoint when a step repeats its key

---
 hyperstate/hyperstate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 200ee2c..1bed1da 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -136,7 +136,10 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if self._last_checkpoint is not None:
+            if (
+                self._last_checkpoint is not None
+                and self._last_checkpoint != checkpoint_dir
+            ):
                 with tempfile.TemporaryDirectory() as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
             self._last_checkpoint = checkpoint_dir
-- 
2.43.0


From 4916c27256849b31037fb92780d799386de89f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:59 +0000
Subject: [PATCH 07/62] fix: unrelated directories no longer hide the latest
 checkpoint

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bed1da..4bea2fe 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -341,7 +341,7 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12:
+        if d.is_dir() and d.name.startswith("latest") and len(d.name) >= 12:
             try:
                 if latest is None or int(d.name[-12:]) > latest:
                     latest = int(d.name[-12:])
-- 
2.43.0


From 8bf64f41b3e3a6de72a34269fb697216235aa20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:01 +0000
Subject: [PATCH 08/62] fix: config files without a version are not taken for
 current ones

---
 hyperstate/hyperstate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 4bea2fe..4850553 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -165,8 +165,7 @@ class StateManager(Generic[C, S]):
             self.config_cls,
             file=path,
             overrides=self.overrides or [],
-            allow_missing_version=path is None
-            or not isinstance(self.config_cls, Versioned),
+            allow_missing_version=path is None,
             ignore_extra_fields=self.ignore_extra_fields,
         )
 
-- 
2.43.0


From 972dc6e8ece8c7c0c6f354c83dd8ed2112ea6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:03 +0000
Subject: [PATCH 09/62] fix: close upgraded config files

---
 hyperstate/schema/schema_checker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 433de3e..117f66c 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -418,7 +418,8 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        open(filename, "w").write(upgraded_config)
+        with open(filename, "w") as f:
+            f.write(upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From ba49409f7961db88db369b70f25ba296f0a6494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:05 +0000
Subject: [PATCH 10/62] fix: ignore extra fields at every depth when asked to

---
 hyperstate/serde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index d81871b..a97a011 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -220,14 +220,14 @@ def from_dict(
         and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
-        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
+        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
         return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
+            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
         )
     elif (
@@ -237,7 +237,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -274,6 +274,7 @@ def from_dict(
                 value=v,
                 deserializers=deserializers,
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
         try:
-- 
2.43.0


From 40a31422ec2ec2113d057d4f5d145586079c78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:08 +0000
Subject: [PATCH 11/62] fix: reject tuples of the wrong length

---
 hyperstate/serde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index a97a011..41817e1 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -226,6 +226,10 @@ def from_dict(
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
+        if len(value) != len(clz.__args__):  # type: ignore
+            raise DeserializeValueError(
+                f"Expected {fpath} to have {len(clz.__args__)} elements, got {value}"  # type: ignore
+            )
         return tuple(
             from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
-- 
2.43.0


From 912fc99c7901c9d3c48c9062f64e71c5c531d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 12/62] fix: integers given as strings keep all their digits

---
 hyperstate/serde.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 41817e1..2ece979 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -184,7 +184,10 @@ def from_dict(
     elif (clz == float or ufloat) and isinstance(value, str):
         return float(value)  # type: ignore
     elif (clz == int or uint) and isinstance(value, str):
-        f = float(value)
+        try:
+            return int(value)  # type: ignore
+        except ValueError:
+            f = float(value)
         if int(f) == f:
             return int(f)  # type: ignore
         else:
-- 
2.43.0


From 5793ae922b9d9283d94ff6d2f0fa3a4d856938d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 13/62] fix: literals load as the declared value, not as one
 that compares equal

---
 hyperstate/serde.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 2ece979..037b400 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -295,11 +295,11 @@ def from_dict(
         if isnamedtupleinstance(value) and len(value._fields) == 0:
             value = value.__class__.__name__
         args = typing.get_args(clz)
-        if value not in args:
-            raise DeserializeValueError(
-                f"{fpath} must be one of {args} but got '{value}'."
-            )
-        return value  # type: ignore
+        for arg in args:
+            # 1.0 stands for 1, but True does not
+            if arg == value and isinstance(arg, bool) == isinstance(value, bool):
+                return arg  # type: ignore
+        raise DeserializeValueError(f"{fpath} must be one of {args} but got '{value}'.")
     if isinstance(value, dict) and "!__name__" in value:
         fields = {k: v for k, v in value.items() if k != "!__name__"}
         value = namedtuple(value["!__name__"], fields.keys())(**fields)
-- 
2.43.0


From a2c59d5b61e6f02ba955fd0e369c941e9e47ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 14/62] fix: dictionary keys are checked against their declared
 type

---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 037b400..4828dcf 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -244,7 +244,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
+            from_dict(clz.__args__[0], k): from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
-- 
2.43.0


From 12e098b07ad3aed937461a8bb99f54a44c02af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 15/62] fix: RejectValues keeps values that are still allowed

---
 hyperstate/schema/rewrite_rule.py | 38 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 43f3d65..a0d96a5 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -159,31 +159,29 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
-        if present and value in self.disallowed_values:
-            raise ValueError(
-                f"Value {value.__repr__()} is deprecated for field {self.field}."
-            )
+        value, present = _get(state_dict, self.field)
+        for v in value if isinstance(value, list) else [value]:
+            if present and v in self.disallowed_values:
+                raise ValueError(
+                    f"Value {v.__repr__()} is deprecated for field {self.field}."
+                )
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(schema, types.Literal)
-        _insert_schema(
-            schema,
-            self.field,
-            replace(
-                field,
-                type=types.Literal(
-                    [
-                        v
-                        for v in schema.allowed_values
-                        if v not in self.disallowed_values
-                    ]
-                ),
-            ),
-        )
+
+        def reject(type: types.Type) -> types.Type:
+            if isinstance(type, types.List):
+                return replace(type, inner=reject(type.inner))
+            if isinstance(type, types.Option):
+                return replace(type, type=reject(type.type))
+            assert isinstance(type, types.Literal)
+            return types.Literal(
+                [v for v in type.allowed_values if v not in self.disallowed_values]
+            )
+
+        _insert_schema(schema, self.field, replace(field, type=reject(field.type)))
 
 
 def _remove(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
-- 
2.43.0


From cfbf47948cc0d7dcf7be1641f8c99db3e36d908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 16/62] fix: CheckValue and RejectValues accept null parents

---
 hyperstate/schema/rewrite_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index a0d96a5..f450205 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -205,7 +205,9 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
         if field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-    if path[-1] not in state_dict:
+        if state_dict is None:
+            return None, False
+    if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     return state_dict[path[-1]], True
 
-- 
2.43.0


From f527ccb25945a1c25f6e93eb3fbe0534b68d23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 17/62] fix: loaded configs do not share the defaults held by
 upgrade rules

---
 hyperstate/schema/rewrite_rule.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index f450205..962d8ea 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, replace
 from typing import List, Optional, Sequence, Set, Tuple, Dict, Any, Callable
@@ -92,7 +93,9 @@ class ChangeDefault(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         existing_value, ok = _remove(state_dict, self.field)
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
-            _insert(state_dict, self.field, self.old_default, create_new=False)
+            _insert(
+                state_dict, self.field, deepcopy(self.old_default), create_new=False
+            )
         else:
             _insert(state_dict, self.field, existing_value)
         return state_dict
@@ -112,7 +115,10 @@ class AddDefault(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         value, present = _remove(state_dict, self.field)
         _insert(
-            state_dict, self.field, value if present else self.default, create_new=False
+            state_dict,
+            self.field,
+            value if present else deepcopy(self.default),
+            create_new=False,
         )
         return state_dict
 
-- 
2.43.0


From 4c3c3839628cf990fe43759246239d54325b0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:09 +0000
Subject: [PATCH 18/62] fix: schedules inside lists and dictionaries are
 applied and saved

---
 hyperstate/hyperstate.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 4850553..ef6e3fe 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -223,7 +223,18 @@ def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None
             schedule.update_value(config, state)
         else:
             assert isinstance(schedule, dict)
-            _apply_schedules(state, getattr(config, field_name), schedule)
+            if isinstance(config, (list, tuple, dict)):
+                child = config[_container_key(config, field_name)]
+            else:
+                child = getattr(config, field_name)
+            _apply_schedules(state, child, schedule)
+
+
+def _container_key(container: Any, segment: str) -> Any:
+    """Returns the index or key of `container` that `segment` of a field path refers to."""
+    if isinstance(container, dict):
+        return next(key for key in container if str(key) == segment)
+    return int(segment)
 
 
 def _typed_dump(
@@ -433,15 +444,19 @@ class ScheduleDeserializer(Deserializer):
     ) -> Tuple[Optional[T], bool, bool]:
         if (cls == int or cls == float) and isinstance(value, str) and "@" in value:
             schedule = _parse_schedule(value)
-            field_name = path.split(".")[-1]
+            segments = path.replace("[", ".").replace("]", "").split(".")
+            field_name = segments[-1]
 
             def update(self: T, state: Any) -> None:
                 x = getattr(state, schedule.xname)
                 value = schedule.get_value(x)
-                setattr(self, field_name, cls(value))  # type: ignore
+                if isinstance(self, (list, dict)):
+                    self[_container_key(self, field_name)] = cls(value)  # type: ignore
+                else:
+                    setattr(self, field_name, cls(value))  # type: ignore
 
             schedules = self.schedules
-            for segment in path.split(".")[:-1]:
+            for segment in segments[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
                 schedules = schedules[segment]
-- 
2.43.0


From 816829321ab5810f0c9889be10b608a5e2f445a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 19/62] fix: values assigned to lazy fields are not overwritten
 on first access

---
 hyperstate/lazy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f1843f7..5c935f5 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -67,9 +67,14 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            del unloaded[name]
+            unloaded.pop(name, None)
         return super(Lazy, self).__getattribute__(name)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        super(Lazy, self).__setattr__(name, value)
+        # An assigned value takes the place of the one that has not been loaded yet.
+        self.__dict__.get("_unloaded_lazy_fields", {}).pop(name, None)
+
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
         Add a value to the deserialization context.
-- 
2.43.0


From 57a4992abcac2082db0da54a4304608cb0d4f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:57 +0000
Subject: [PATCH 20/62] fix: serializable objects in other places than lazy
 fields are restored

---
 hyperstate/hyperstate.py | 51 +++++++++++++++++++++++++++++++---------
 hyperstate/lazy.py       | 49 ++++++++++++++++++++++----------------
 2 files changed, 69 insertions(+), 31 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index ef6e3fe..b2fc53d 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -33,7 +33,7 @@ from hyperstate.serde import (
     asdict,
 )
 import hyperstate.serde as serde
-from .lazy import Lazy, LazyDeserializer, LazySerializer
+from .lazy import Lazy, LazyDeserializer, LazySerializer, _load_blob
 import pyron
 
 from hyperstate.schedule import Schedule, _parse_schedule
@@ -181,6 +181,7 @@ class StateManager(Generic[C, S]):
             file=path / "state.ron",
             config=self.config,
             ignore_extra_fields=self.ignore_extra_fields,
+            deserialize_ctx={**self._deserialize_ctx},
         )[0]
 
     def checkpoint(self, target_dir: str) -> None:
@@ -223,11 +224,7 @@ def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None
             schedule.update_value(config, state)
         else:
             assert isinstance(schedule, dict)
-            if isinstance(config, (list, tuple, dict)):
-                child = config[_container_key(config, field_name)]
-            else:
-                child = getattr(config, field_name)
-            _apply_schedules(state, child, schedule)
+            _apply_schedules(state, _get_child(config, field_name), schedule)
 
 
 def _container_key(container: Any, segment: str) -> Any:
@@ -237,6 +234,19 @@ def _container_key(container: Any, segment: str) -> Any:
     return int(segment)
 
 
+def _get_child(parent: Any, segment: str) -> Any:
+    if isinstance(parent, (list, tuple, dict)):
+        return parent[_container_key(parent, segment)]
+    return getattr(parent, segment)
+
+
+def _set_child(parent: Any, segment: str, value: Any) -> None:
+    if isinstance(parent, (list, tuple, dict)):
+        parent[_container_key(parent, segment)] = value  # type: ignore
+    else:
+        setattr(parent, segment, value)
+
+
 def _typed_dump(
     obj: Any,
     file: Union[Path, None] = None,
@@ -279,6 +289,7 @@ def _typed_load(
     config: Optional[Any] = None,
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
+    deserialize_ctx: Optional[Dict[str, Any]] = None,
 ) -> Tuple[T, Dict[str, Any]]:
     if overrides is not None:
         deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
@@ -306,10 +317,31 @@ def _typed_load(
             ignore_extra_fields=ignore_extra_fields,
         )
     if lazy is not None and len(lazy.lazy_fields) > 0:
-        value._unloaded_lazy_fields = lazy.lazy_fields  # type: ignore
+        _attach_blobs(value, lazy.lazy_fields, deserialize_ctx or {})
     return value, schedules.schedules
 
 
+def _attach_blobs(state: Any, blobs: Dict[str, Any], ctx: Dict[str, Any]) -> None:
+    """
+    Makes `Lazy` objects load their blobs on first access, and loads the blobs of all other objects.
+    """
+    eager = []
+    for path, blob in blobs.items():
+        *parents, name = path.replace("[", ".").replace("]", "").split(".")
+        owner = state
+        for segment in parents:
+            owner = _get_child(owner, segment)
+        if isinstance(owner, Lazy):
+            if "_unloaded_lazy_fields" not in owner.__dict__:
+                owner._unloaded_lazy_fields = {}  # type: ignore
+                owner._deserialize_ctx = ctx
+            owner._unloaded_lazy_fields[name] = blob  # type: ignore
+        else:
+            eager.append((owner, name, blob))
+    for owner, name, blob in eager:
+        _set_child(owner, name, _load_blob(*blob, state, ctx))
+
+
 def loads(
     clz: Type[T],
     value: str,
@@ -450,10 +482,7 @@ class ScheduleDeserializer(Deserializer):
             def update(self: T, state: Any) -> None:
                 x = getattr(state, schedule.xname)
                 value = schedule.get_value(x)
-                if isinstance(self, (list, dict)):
-                    self[_container_key(self, field_name)] = cls(value)  # type: ignore
-                else:
-                    setattr(self, field_name, cls(value))  # type: ignore
+                _set_child(self, field_name, cls(value))  # type: ignore
 
             schedules = self.schedules
             for segment in segments[:-1]:
diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 5c935f5..39115f0 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -36,6 +36,32 @@ class Serializable(ABC, Generic[C, S]):
         pass
 
 
+def _load_blob(
+    ser_clz: Type[Serializable],
+    config: Any,
+    path: Path,
+    legacy_pickle: bool,
+    state: Any,
+    ctx: Dict[str, Any],
+) -> Any:
+    with open(path, "rb") as f:
+        if legacy_pickle:
+            if "UNSAFE_DESERIALIZE_PICKLE" in os.environ:
+                import pickle
+
+                state_dict = pickle.load(f)
+            else:
+                raise RuntimeError(
+                    "Deserialization of legacy snapshots containing pickled objects is not allowed as of hyperstate==0.4.0."
+                    "To enable it, set the environment variable UNSAFE_DESERIALIZE_PICKLE to 1."
+                )
+        else:
+            state_dict = msgpack.unpack(
+                f, object_hook=msgpack_torch.decode, strict_map_key=False
+            )
+    return ser_clz.deserialize(state_dict, config, state, ctx)
+
+
 class Lazy:
     def __getattribute__(self, name: str) -> Any:
         try:
@@ -43,26 +69,9 @@ class Lazy:
         except AttributeError:
             unloaded = None
         if unloaded is not None and name in unloaded:
-            ser_clz, config, path, legacy_pickle = unloaded[name]
-            with open(path, "rb") as f:
-                if legacy_pickle:
-                    if "UNSAFE_DESERIALIZE_PICKLE" in os.environ:
-                        import pickle
-
-                        state_dict = pickle.load(f)
-                    else:
-                        raise RuntimeError(
-                            "Deserialization of legacy snapshots containing pickled objects is not allowed as of hyperstate==0.4.0."
-                            "To enable it, set the environment variable UNSAFE_DESERIALIZE_PICKLE to 1."
-                        )
-                else:
-                    state_dict = msgpack.unpack(
-                        f, object_hook=msgpack_torch.decode, strict_map_key=False
-                    )
             # TODO: recursion check
-            value = ser_clz.deserialize(
-                state_dict,
-                config,
+            value = _load_blob(
+                *unloaded[name],
                 self,
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
@@ -115,7 +124,7 @@ class LazyDeserializer(Deserializer, Generic[C]):
                 )
             else:
                 filepath = (
-                    "state." + path.replace("[", "_").replace("]", "") + ".msgpack"
+                    "state." + path.replace("[", ".").replace("]", "") + ".msgpack"
                 )
             self.lazy_fields[path] = (
                 cls,
-- 
2.43.0


From 808a2ef7e30a0fd3f6890803b6813f953ee54742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 21/62] fix: restored arrays are writable

---
 hyperstate/msgpack_torch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 1a9a8d8..659daf1 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -35,7 +35,8 @@ def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
             if obj[b"__tensor__"] == "torch" and torch is not None:
                 return torch.from_numpy(np.copy(tensor))
             else:
-                return tensor
+                # The buffer is read-only, so hand out a copy of it.
+                return np.copy(tensor)
         else:
             return obj if chain is None else chain(obj)
     except KeyError:
-- 
2.43.0


From 8a41d3e0242f17cb1c50fa9bf98039b4a5fb5a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:37 +0000
Subject: [PATCH 22/62] fix: steps keep working after a previous checkpoint
 could not be removed

---
 hyperstate/hyperstate.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index b2fc53d..0330164 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -136,13 +136,12 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if (
-                self._last_checkpoint is not None
-                and self._last_checkpoint != checkpoint_dir
-            ):
-                with tempfile.TemporaryDirectory() as tmpdir:
-                    shutil.move(str(self._last_checkpoint), tmpdir)
+            previous = self._last_checkpoint
+            # Set this first, a previous checkpoint that can't be removed now can't be removed later either.
             self._last_checkpoint = checkpoint_dir
+            if previous is not None and previous != checkpoint_dir:
+                with tempfile.TemporaryDirectory() as tmpdir:
+                    shutil.move(str(previous), tmpdir)
             # TODO: persistent checkpoints
 
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
-- 
2.43.0


From 0b4078d1828baec5e162618284962d534660331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 23/62] fix: enum variants are only renamed within the same
 field

---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 117f66c..a060737 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -281,6 +281,8 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
+            if removed.field != added.field:
+                return None
             return name_similarity(removed.variant, added.variant)
 
         def enum_renamed(
-- 
2.43.0


From 1f1a0f991a3ac15e940ab2f242fd05d6436a6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 24/62] fix: subtyping of optional and nested types goes in the
 right direction

---
 hyperstate/schema/types.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4b97aaa..af38976 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -205,13 +205,25 @@ class Struct:
             isinstance(other, Struct)
             and all(
                 k in other.fields
-                and other.fields[k].type.is_subtype(self.fields[k].type)
+                and self.fields[k].type.is_subtype(other.fields[k].type)
                 for k in self.fields
             )
+            and all(
+                k in self.fields or _can_be_absent(field)
+                for k, field in other.fields.items()
+            )
+            and (self.version is None) == (other.version is None)
             or (isinstance(other, Option) and self.is_subtype(other.type))
         )
 
 
+def _can_be_absent(field: Field) -> bool:
+    return field.has_default or (
+        isinstance(field.type, Struct)
+        and all(_can_be_absent(f) for f in field.type.fields.values())
+    )
+
+
 @dataclass(eq=True, frozen=True)
 class Option:
     type: Type
@@ -220,7 +232,7 @@ class Option:
         return f"Optional[{self.type}]"
 
     def is_subtype(self, other: Type) -> bool:
-        return isinstance(other, Option) and other.type.is_subtype(self.type)
+        return isinstance(other, Option) and self.type.is_subtype(other.type)
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From c097012c6c4224bef79b2aa90b33ef5665f5993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 25/62] fix: schema checks support tuples, dictionaries and
 unions

---
 hyperstate/schema/schema_checker.py | 23 +++++++++++++++++++++++
 hyperstate/schema/types.py          |  9 +++++++++
 2 files changed, 32 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index a060737..3da8523 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -100,6 +100,29 @@ class SchemaChecker:
         elif isinstance(old, t.List):
             assert isinstance(new, t.List)
             self._find_changes(old.inner, new.inner, path)
+        elif isinstance(old, t.Tuple):
+            assert isinstance(new, t.Tuple)
+            if len(old.inner) != len(new.inner):
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                for old_type, new_type in zip(old.inner, new.inner):
+                    self._find_changes(old_type, new_type, path)
+        elif isinstance(old, t.Dict):
+            assert isinstance(new, t.Dict)
+            if old.key != new.key:
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                self._find_changes(old.val, new.val, path)
+        elif isinstance(old, t.Union):
+            assert isinstance(new, t.Union)
+            # Alternatives are told apart by name
+            if [(u.__class__, str(u)) for u in old.types] != [
+                (u.__class__, str(u)) for u in new.types
+            ]:
+                self.changes.append(TypeChanged(tuple(path), old, new))
+            else:
+                for old_type, new_type in zip(old.types, new.types):
+                    self._find_changes(old_type, new_type, path)
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
             for name, field in new.fields.items():
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index af38976..c734b99 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -321,6 +321,14 @@ def schema_from_namedtuple(schema: Any) -> Type:
         return Primitive(schema.type)
     elif clz_name == "List":
         return List(schema_from_namedtuple(schema.inner))
+    elif clz_name == "Tuple":
+        return Tuple([schema_from_namedtuple(inner) for inner in schema.inner])
+    elif clz_name == "Dict":
+        return Dict(
+            schema_from_namedtuple(schema.key), schema_from_namedtuple(schema.val)
+        )
+    elif clz_name == "Union":
+        return Union([schema_from_namedtuple(type) for type in schema.types])
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
@@ -329,6 +337,7 @@ def schema_from_namedtuple(schema: Any) -> Type:
                 schema_from_namedtuple(field.type),
                 field.default,
                 field.has_default,
+                getattr(field, "docstring", None),
             )
         return Struct(schema.name, fields, schema.version)
     elif clz_name == "Option":
-- 
2.43.0


From 6bfa05323456c296cbb1ad36c97bf73a07b5cbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 26/62] fix: defaults of schemas loaded from a file compare
 equal to those of the class

---
 hyperstate/schema/rewrite_rule.py   |  4 +++-
 hyperstate/schema/schema_checker.py |  9 ++++++---
 hyperstate/schema/types.py          | 22 ++++++++++++++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 962d8ea..fdc2831 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -103,7 +103,9 @@ class ChangeDefault(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert field.default == self.old_default, f"Default value mismatch"
+        assert types.same_default(
+            field.default, self.old_default
+        ), f"Default value mismatch"
         _insert_schema(schema, self.field, replace(field, default=self.new_default))
 
 
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 3da8523..2759bfd 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -25,6 +25,7 @@ from hyperstate.schema.schema_change import (
     TypeChanged,
 )
 from hyperstate.schema.versioned import Versioned
+from hyperstate.serde import asdict
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -173,7 +174,9 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and oldfield.default != field.default:
+                        elif oldfield.has_default and not t.same_default(
+                            oldfield.default, field.default
+                        ):
                             self.changes.append(
                                 DefaultValueChanged(
                                     tuple(path + [name]),
@@ -290,7 +293,7 @@ class SchemaChecker:
             if (
                 removed.type.is_subtype(added.type)
                 and removed.has_default == added.has_default
-                and removed.default == added.default
+                and t.same_default(removed.default, added.default)
             ):
                 return name_similarity(removed.field[-1], added.field[-1])
             return None
@@ -400,7 +403,7 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(materialize_type(type))
+    serialized = pyron.to_string(asdict(materialize_type(type), named_tuples=True))
     with open(filename, "w") as f:
         f.write(serialized)
 
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index c734b99..164f6fc 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -360,6 +360,28 @@ def load_schema(path: str) -> Struct:
     return result
 
 
+def same_default(default1: Any, default2: Any) -> bool:
+    """
+    Returns whether two defaults are the same, whether they come from a class or from a schema file.
+    """
+    return bool(_comparable(default1) == _comparable(default2))
+
+
+def _comparable(value: Any) -> Any:
+    if isinstance(value, enum.Enum):
+        return value.value
+    elif is_dataclass(value):
+        fields = {name: getattr(value, name) for name in value.__dataclass_fields__}
+        return value.__class__.__name__, _comparable(fields)
+    elif isinstance(value, tuple) and hasattr(value, "_asdict"):
+        return value.__class__.__name__, _comparable(dict(value._asdict()))
+    elif isinstance(value, (list, tuple)):
+        return value.__class__.__name__, [_comparable(v) for v in value]
+    elif isinstance(value, dict):
+        return {_comparable(k): _comparable(v) for k, v in value.items()}
+    return value
+
+
 def _unwrap_container_type(type: Type) -> Type:
     if isinstance(type, List):
         return _unwrap_container_type(type.inner)
-- 
2.43.0


From 999abb1a98384cf459aad6886279014678e38b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 27/62] fix: default rules reach objects that are built from
 their defaults

---
 hyperstate/serde.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 4828dcf..3a23a82 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -283,7 +283,15 @@ def from_dict(
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
                 ignore_extra_fields=ignore_extra_fields,
             )
-        _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
+        _try_create_defaults(
+            clz,
+            kwargs,
+            remaining_fields,
+            fpath,
+            weak_refs,
+            deserializers,
+            ignore_extra_fields,
+        )
         try:
             instance = clz(**kwargs)  # type: ignore
             return instance
@@ -317,6 +325,8 @@ def _try_create_defaults(
     fpath: str,
     # weak_refs is values which should only be used if a dataclass is
     weak_refs: Dict[str, Any],
+    deserializers: List[Deserializer],
+    ignore_extra_fields: bool,
 ) -> Any:
     """
     Recursively initializes value for dataclass fields without default value with default constructor.
@@ -326,27 +336,29 @@ def _try_create_defaults(
     still_missing = []
     for _field_name in remaining_fields:
         field = cls.__dataclass_fields__.get(_field_name)
-        if field.default is MISSING and field.default_factory is MISSING:
+        _fpath = f"{fpath}.{_field_name}" if fpath else _field_name
+        _weak_refs = weak_refs.get(_field_name, {})
+        if _field_name in weak_refs and not (
+            isinstance(_weak_refs, dict) and WEAK_REF in _weak_refs
+        ):
+            kwargs[field.name] = from_dict(
+                field.type, _weak_refs, deserializers, _fpath, ignore_extra_fields
+            )
+        elif field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
-                _missing_defaults = [
-                    f.name
-                    for f in field.type.__dataclass_fields__.values()
-                    if f.default is MISSING and f.default_factory is MISSING
-                ]
                 _kwargs: Dict[str, Any] = {}
-                _weak_refs = weak_refs.get(_field_name, {})
                 _try_create_defaults(
                     field.type,
                     _kwargs,
-                    _missing_defaults,
-                    f"{fpath}.{_field_name}" if fpath else _field_name,
+                    field.type.__dataclass_fields__.keys(),
+                    _fpath,
                     weak_refs=_weak_refs,
+                    deserializers=deserializers,
+                    ignore_extra_fields=ignore_extra_fields,
                 )
                 kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
-        elif _field_name in weak_refs and WEAK_REF not in weak_refs[_field_name]:
-            kwargs[field.name] = weak_refs[_field_name]
 
     if len(still_missing) > 0:
         prefix = f"{fpath}." if fpath else ""
-- 
2.43.0


From ca9dafc1988793f9b5469b9dc63fa9aba6c1ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:16 +0000
Subject: [PATCH 28/62] fix: rules applied after default rules do not turn
 defaults into recorded values

---
 hyperstate/schema/rewrite_rule.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index fdc2831..4d5a8fa 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -26,9 +26,11 @@ class RenameField(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
+        is_default = _has_weak_parent(state_dict, self.old_field)
         value, ok = _remove(state_dict, self.old_field)
         if ok:
-            _insert(state_dict, self.new_field, value)
+            is_default = is_default or _is_weak(value)
+            _insert(state_dict, self.new_field, value, create_new=not is_default)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -59,8 +61,8 @@ class MapFieldValue(RewriteRule):
         path = self.field
         value, present = _remove(state_dict, path)
         if present:
-            new_value = self.map_fn(value)
-            _insert(state_dict, path, new_value)
+            new_value = value if _is_weak(value) else self.map_fn(value)
+            _insert(state_dict, path, new_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -97,7 +99,7 @@ class ChangeDefault(RewriteRule):
                 state_dict, self.field, deepcopy(self.old_default), create_new=False
             )
         else:
-            _insert(state_dict, self.field, existing_value)
+            _insert(state_dict, self.field, existing_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -217,7 +219,22 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
             return None, False
     if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
-    return state_dict[path[-1]], True
+    value = state_dict[path[-1]]
+    return value, not _is_weak(value)
+
+
+def _is_weak(value: Any) -> bool:
+    return isinstance(value, dict) and WEAK_REF in value
+
+
+def _has_weak_parent(state_dict: Any, path: Sequence[str]) -> bool:
+    for field in path[:-1]:
+        if not isinstance(state_dict, dict) or field not in state_dict:
+            return False
+        state_dict = state_dict[field]
+        if _is_weak(state_dict):
+            return True
+    return False
 
 
 def _insert(
-- 
2.43.0


From ab27e5a92eb20a5a79d2c45a5348e00debf7275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 29/62] fix: proposed upgrade rules map the old defaults they
 fill in

---
 hyperstate/schema/rewrite_rule.py   | 30 ++++++++++++++---------------
 hyperstate/schema/schema_checker.py |  3 +++
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 4d5a8fa..7bb548a 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -68,22 +68,20 @@ class MapFieldValue(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        if isinstance(field.type, types.Enum):
-            _insert_schema(
-                schema,
-                self.field,
-                replace(
-                    field,
-                    type=replace(
-                        field.type,
-                        variants={
-                            k: self.map_fn(v) for k, v in field.type.variants.items()
-                        },
-                    ),
-                ),
-            )
-        else:
-            _insert_schema(schema, self.field, field)
+
+        def map_variants(type: types.Type) -> types.Type:
+            if isinstance(type, types.Option):
+                return replace(type, type=map_variants(type.type))
+            if isinstance(type, types.Enum):
+                return replace(
+                    type,
+                    variants={k: self.map_fn(v) for k, v in type.variants.items()},
+                )
+            return type
+
+        _insert_schema(
+            schema, self.field, replace(field, type=map_variants(field.type))
+        )
 
 
 @dataclass
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 2759bfd..70fae10 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -24,6 +24,7 @@ from hyperstate.schema.schema_change import (
     Severity,
     TypeChanged,
 )
+from hyperstate.schema.rewrite_rule import MapFieldValue
 from hyperstate.schema.versioned import Versioned
 from hyperstate.serde import asdict
 from .types import load_schema, materialize_type
@@ -56,6 +57,8 @@ class SchemaChecker:
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
                 self.proposed_fixes.append(proposed_fix)
+        # Defaults that are filled in have to be mapped as well
+        self.proposed_fixes.sort(key=lambda fix: isinstance(fix, MapFieldValue))
 
     def severity(self) -> Severity:
         max_severity = Severity.INFO
-- 
2.43.0


From d517a2cdc2144f9c6b6acbf90f79ffb90d9c53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 30/62] fix: upgraded configs do not keep empty objects of
 removed classes

---
 hyperstate/schema/versioned.py | 37 ++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aec72e4..9d6e208 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -2,14 +2,15 @@ from abc import ABC, abstractmethod
 from collections import namedtuple
 from dataclasses import dataclass
 from inspect import isclass
-from typing import Any, Dict, List, Optional, Type, TypeVar, Callable, Tuple
+from typing import Any, Dict, List, Optional, Sequence, Type, TypeVar, Callable, Tuple
 from hyperstate.schema import namedtuple_utils, types
 from hyperstate.serde import (
     Deserializer,
     Serializer,
+    is_optional,
 )
 
-from hyperstate.schema.rewrite_rule import RewriteRule
+from hyperstate.schema.rewrite_rule import RewriteRule, _get, _remove
 
 T = TypeVar("T")
 
@@ -39,9 +40,13 @@ class Versioned(ABC):
             assert (
                 v < clz.version()
             ), f"{clz.__name__}.upgrade_rules() keys must be less than {clz.__name__}.version()"
+        removed: List[Sequence[str]] = []
         for i in range(version, clz.version()):
             for rule in clz.upgrade_rules().get(i, []):
                 state_dict = rule.apply(state_dict)
+                removed.append(getattr(rule, "old_field", getattr(rule, "field", ())))
+        if removed:
+            _remove_leftovers(state_dict, clz, removed)
         return state_dict
 
     @classmethod
@@ -51,6 +56,34 @@ class Versioned(ABC):
                 rule.apply_to_schema(schema)
 
 
+def _remove_leftovers(
+    state_dict: Any, clz: Type[Any], paths: List[Sequence[str]]
+) -> None:
+    """
+    Removes objects which the class no longer has once the last of their fields at `paths` is gone.
+    """
+    for path in paths:
+        for n in range(len(path) - 1, 0, -1):
+            value, present = _get(state_dict, path[:n])
+            if (
+                present
+                and isinstance(value, dict)
+                and all(key == "!__name__" for key in value)
+                and not _has_field(clz, path[:n])
+            ):
+                _remove(state_dict, path[:n])
+
+
+def _has_field(clz: Any, path: Sequence[str]) -> bool:
+    for segment in path:
+        if is_optional(clz):
+            clz = clz.__args__[0]
+        if segment not in getattr(clz, "__dataclass_fields__", {}):
+            return False
+        clz = clz.__dataclass_fields__[segment].type
+    return True
+
+
 @dataclass
 class VersionedDeserializer(Deserializer):
     allow_missing_version: bool = False
-- 
2.43.0


From 5c23a980b6fc1c1589d74fe8c75e04d710758e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 31/62] fix: values of union types can be given as overrides

---
 hyperstate/serde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 3a23a82..16b0d58 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -193,6 +193,8 @@ def from_dict(
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
     elif typing.get_origin(clz) == typing.Union:
+        if isnamedtupleinstance(value):
+            value = {"!__name__": value.__class__.__name__, **value._asdict()}
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-- 
2.43.0


From 420eaf8793e67a1bc6122c94f883f683ef52a9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 32/62] fix: structs given as overrides of versioned objects
 are upgraded

---
 hyperstate/schema/versioned.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 9d6e208..80c7b07 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -8,6 +8,7 @@ from hyperstate.serde import (
     Deserializer,
     Serializer,
     is_optional,
+    isnamedtupleinstance,
 )
 
 from hyperstate.schema.rewrite_rule import RewriteRule, _get, _remove
@@ -97,9 +98,12 @@ class VersionedDeserializer(Deserializer):
         if isclass(clz) and issubclass(clz, Versioned):
             if isinstance(value, dict):
                 version = value.pop("version", None)
-            elif hasattr(value, "version"):
-                version = value.version
-                value = namedtuple_utils.remove_field(value, "version")
+            elif isnamedtupleinstance(value):
+                value = value._asdict()
+                version = value.pop("version", None)
+            elif isinstance(value, Versioned):
+                # Constructed by an upgrade rule or default, so there is nothing to upgrade
+                return None, False, False
             else:
                 version = None
 
@@ -110,6 +114,7 @@ class VersionedDeserializer(Deserializer):
                     )
             else:
                 value = clz._apply_upgrades(state_dict=value, version=version)
+            return value, True, False
         return None, False, False
 
 
-- 
2.43.0


From 3be82fc3a6f42284e4926d5e54042417600f9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 33/62] fix: overrides apply to upgraded configs and keep the
 other fields of nested objects

---
 hyperstate/hyperstate.py | 46 ++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 0330164..53c560e 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -17,7 +17,7 @@ from typing import (
     Tuple,
     Union,
 )
-from dataclasses import MISSING, dataclass
+from dataclasses import MISSING, dataclass, is_dataclass
 import uuid
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
@@ -31,7 +31,9 @@ from hyperstate.serde import (
     Deserializer,
     Serializer,
     asdict,
+    is_optional,
 )
+from hyperstate.schema.rewrite_rule import WEAK_REF
 import hyperstate.serde as serde
 from .lazy import Lazy, LazyDeserializer, LazySerializer, _load_blob
 import pyron
@@ -290,13 +292,13 @@ def _typed_load(
     ignore_extra_fields: bool = False,
     deserialize_ctx: Optional[Dict[str, Any]] = None,
 ) -> Tuple[T, Dict[str, Any]]:
+    # Overrides name fields of the current version, so they are applied after upgrades.
+    versioned = VersionedDeserializer(allow_missing_version)
+    deserializers: List[Deserializer] = [versioned]
     if overrides is not None:
-        deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
-    else:
-        deserializers = []
+        deserializers.append(OverridesDeserializer(overrides, versioned))
     schedules = ScheduleDeserializer()
     deserializers.append(schedules)
-    deserializers.append(VersionedDeserializer(allow_missing_version))
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
@@ -395,6 +397,7 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
 @dataclass
 class OverridesDeserializer(Deserializer):
     overrides: List[str]
+    versioned: VersionedDeserializer
     applied_overrides: bool = False
 
     def deserialize(
@@ -449,9 +452,11 @@ class OverridesDeserializer(Deserializer):
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
+            clz: Any = cls
             for segment in fpath[:-1]:
-                if segment not in _value or _value[segment] is None:
-                    _value[segment] = {}
+                field = clz.__dataclass_fields__[segment]
+                clz = field.type.__args__[0] if is_optional(field.type) else field.type
+                _value[segment] = self._nested_value(field, clz, _value.get(segment, MISSING))
                 _value = _value[segment]
             _value[fpath[-1]] = val
         if len(errors) == 1:
@@ -461,6 +466,33 @@ class OverridesDeserializer(Deserializer):
         self.applied_overrides = True
         return value, True, False
 
+    def _nested_value(self, field: Any, clz: Any, value: Any) -> Any:
+        """
+        Returns the object held by `field` in the form of a dictionary that overrides can be applied to.
+        `value` is the current value of the field, or `MISSING` if it has none.
+        """
+        if value is MISSING or (isinstance(value, dict) and WEAK_REF in value):
+            # The file does not mention the object
+            if field.default is not MISSING:
+                value = field.default
+            elif field.default_factory is not MISSING:
+                value = field.default_factory()
+            else:
+                value = {} if value is MISSING else value
+                value.pop(WEAK_REF, None)
+                if issubclass(clz, Versioned):
+                    value["version"] = clz.version()
+        if value is None:
+            value = {"version": clz.version()} if issubclass(clz, Versioned) else {}
+        elif is_dataclass(value):
+            value = asdict(value, named_tuples=True, serializers=[VersionedSerializer()])
+        if serde.isnamedtupleinstance(value):
+            value = value._asdict()
+        if issubclass(clz, Versioned) and "version" in value:
+            value, _, _ = self.versioned.deserialize(clz, value, "")
+            value["version"] = clz.version()
+        return value
+
 
 class ScheduleDeserializer(Deserializer):
     def __init__(self) -> None:
-- 
2.43.0


From 3a88183b63c912c5ce2acc9c198aa08c689d1cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 34/62] fix: unsupported types are an error instead of a
 debugger session

---
 hyperstate/schema/types.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 164f6fc..dba9f3a 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -302,7 +302,6 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif typing.get_origin(clz) == typing.Literal:
         return Literal(list(typing.get_args(clz)))
     else:
-        breakpoint()
         raise ValueError(f"Unsupported type: {clz}")
 
 
-- 
2.43.0


From 2163a86bb248200f39c37f09a04b24ab38eebabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 35/62] fix: literals are not compared with list, tuple and
 dict types

---
 hyperstate/serde.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 16b0d58..bf436ad 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -222,13 +222,13 @@ def from_dict(
     elif (
         hasattr(clz, "__args__")
         and len(clz.__args__) == 1  # type: ignore
-        and clz == List[clz.__args__]  # type: ignore
+        and typing.get_origin(clz) is list
         and isinstance(value, list)
     ):
         return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
-        and clz == Tuple[clz.__args__]  # type: ignore
+        and typing.get_origin(clz) is tuple
         and isinstance(value, tuple)
     ):
         if len(value) != len(clz.__args__):  # type: ignore
@@ -242,7 +242,7 @@ def from_dict(
     elif (
         hasattr(clz, "__args__")
         and len(clz.__args__) == 2  # type: ignore
-        and clz == Dict[clz.__args__]  # type: ignore
+        and typing.get_origin(clz) is dict
         and isinstance(value, dict)
     ):
         return {
-- 
2.43.0


From 1f62ac37108d4b8795c3c7fc95b09b9708668557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 36/62] fix: unions of several types with None accept None

---
 hyperstate/serde.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index bf436ad..4130e54 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -193,6 +193,8 @@ def from_dict(
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
     elif typing.get_origin(clz) == typing.Union:
+        if value is None and type(None) in clz.__args__:  # type: ignore
+            return None  # type: ignore
         if isnamedtupleinstance(value):
             value = {"!__name__": value.__class__.__name__, **value._asdict()}
         if isinstance(value, dict):
-- 
2.43.0


From a8fea62ab9beae061d5fad6df834b383f808f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 37/62] fix: structs do not load as dictionaries

---
 hyperstate/serde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 4130e54..61fd7b1 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -246,6 +246,7 @@ def from_dict(
         and len(clz.__args__) == 2  # type: ignore
         and typing.get_origin(clz) is dict
         and isinstance(value, dict)
+        and "!__name__" not in value
     ):
         return {
             from_dict(clz.__args__[0], k): from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
-- 
2.43.0


From 856423480b48dd7c9cdffbc56ace9385998bab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 38/62] fix: AddDefault on an object whose field defaults were
 filled in before

---
 hyperstate/schema/rewrite_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 7bb548a..b3df48c 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -119,7 +119,9 @@ class AddDefault(RewriteRule):
         _insert(
             state_dict,
             self.field,
-            value if present else deepcopy(self.default),
+            value
+            if present and not _is_weak(value)
+            else deepcopy(self.default),
             create_new=False,
         )
         return state_dict
-- 
2.43.0


From 0980ec7e968979d47f43b389bb462399509506a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 39/62] fix: dictionaries with enum keys can be dumped

---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 61fd7b1..b1b3519 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -93,7 +93,7 @@ def asdict(
             return attrs
     elif isinstance(value, dict):
         return {
-            k: asdict(
+            asdict(k) if isinstance(k, (Enum, tuple)) else k: asdict(
                 value=v,
                 named_tuples=named_tuples,
                 serializers=serializers,
-- 
2.43.0


From 84c1fb9c498786e339e1749a91a029fede9c03e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 40/62] fix: schemas of unions of several types with None

---
 hyperstate/schema/types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index dba9f3a..ec16366 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -264,7 +264,10 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif is_optional(clz):
         return Option(materialize_type(clz.__args__[0]))
     elif hasattr(clz, "__origin__") and clz.__origin__ == typing.Union:
-        return Union([materialize_type(t) for t in clz.__args__])
+        alternatives = [t for t in clz.__args__ if t is not type(None)]
+        if len(alternatives) < len(clz.__args__):
+            return Option(materialize_type(typing.Union[tuple(alternatives)]))
+        return Union([materialize_type(t) for t in alternatives])
     elif is_dataclass(clz):
         fields = {}
         field_docs = _find_all_field_docs(clz)
-- 
2.43.0


From 9c0b2f9225ffa5cdb0744a5dfcbf3b3a38f092c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:26 +0000
Subject: [PATCH 41/62] fix: schemas tell the literals True and 1 apart

---
 hyperstate/schema/schema_checker.py | 8 ++++----
 hyperstate/schema/types.py          | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 70fae10..a43b848 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -236,20 +236,20 @@ class SchemaChecker:
                     )
         elif isinstance(old, t.Literal):
             assert isinstance(new, t.Literal)
-            new_values = set(new.allowed_values) - set(old.allowed_values)
+            new_values = new.distinct_values() - old.distinct_values()
             if new_values:
                 self.changes.append(
                     LiteralValuesAdded(
                         tuple(path),
-                        new_values,
+                        {value for _, value in new_values},
                     )
                 )
-            removed_values = set(old.allowed_values) - set(new.allowed_values)
+            removed_values = old.distinct_values() - new.distinct_values()
             if removed_values:
                 self.changes.append(
                     LiteralValuesRemoved(
                         tuple(path),
-                        removed_values,
+                        {value for _, value in removed_values},
                     )
                 )
         else:
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index ec16366..adc5e1b 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -151,7 +151,7 @@ class Literal:
         return (
             (
                 isinstance(other, Literal)
-                and all(v in other.allowed_values for v in self.allowed_values)
+                and self.distinct_values() <= other.distinct_values()
             )
             or (
                 isinstance(other, Primitive)
@@ -171,7 +171,11 @@ class Literal:
     def __eq__(self, other: Any) -> bool:
         if other.__class__ is not self.__class__:
             return NotImplemented
-        return set(self.allowed_values) == set(other.allowed_values)
+        return self.distinct_values() == other.distinct_values()
+
+    def distinct_values(self) -> typing.Set[typing.Tuple[bool, Any]]:
+        # True and 1 are different values
+        return {(isinstance(v, bool), v) for v in self.allowed_values}
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From 11141c96fbc1655c8c11b83d9a89a3b0c39aebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 42/62] fix: report changed defaults inside a container that
 becomes optional

---
 hyperstate/schema/schema_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index a43b848..464b17e 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -98,6 +98,9 @@ class SchemaChecker:
     def _find_changes(self, old: t.Type, new: t.Type, path: List[str]) -> None:
         if old.__class__ != new.__class__:
             self.changes.append(TypeChanged(tuple(path), old, new))
+            if isinstance(new, t.Option) and old.is_subtype(new):
+                # Fields of nested structs may have other defaults
+                self._find_changes(old, new.type, path)
         elif isinstance(old, t.Primitive):
             if old != new:
                 self.changes.append(TypeChanged(tuple(path), old, new))
-- 
2.43.0


From beb23e279e5447ec5a18ead8822e5796db30cd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:38 +0000
Subject: [PATCH 43/62] fix: report nested structs that become or stop being
 versioned

---
 hyperstate/schema/rewrite_rule.py   | 2 +-
 hyperstate/schema/schema_checker.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index b3df48c..927aa42 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -283,7 +283,7 @@ def _insert_schema(schema: types.Type, path: Sequence[str], field: types.Field)
         if field_name not in schema.fields:
             schema.fields[field_name] = types.Field(
                 name=field_name,
-                type=types.Struct(name="", fields={}),
+                type=types.Struct(name="", fields={}, version=None),
                 has_default=False,
                 default=None,
             )
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 464b17e..0135ce6 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -132,6 +132,8 @@ class SchemaChecker:
                     self._find_changes(old_type, new_type, path)
         elif isinstance(old, t.Struct):
             assert isinstance(new, t.Struct)
+            if (old.version is None) != (new.version is None):
+                self.changes.append(TypeChanged(tuple(path), old, new))
             for name, field in new.fields.items():
                 if name not in old.fields:
                     if isinstance(field.type, t.Struct):
-- 
2.43.0


From 0c01b1eab7c0e4a87599f63d5b612563b841313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:18 +0000
Subject: [PATCH 44/62] fix: AddDefault makes the schema check pass for a
 removed default

---
 hyperstate/schema/rewrite_rule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 927aa42..c6634d2 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -135,6 +135,9 @@ class AddDefault(RewriteRule):
                 default=None,
                 has_default=False,
             )
+        elif field.has_default:
+            # The old default is recorded in the config, the field may lose it
+            field = replace(field, default=None, has_default=False)
         else:
             field = replace(field, default=self.default, has_default=True)
         _insert_schema(schema, self.field, field)
-- 
2.43.0


From 10f41051a779870ea0c1558e9693742da8ca1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:59 +0000
Subject: [PATCH 45/62] fix: an object that becomes a list of objects is
 migrated into it

---
 hyperstate/schema/schema_checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 0135ce6..35c2fe2 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -161,8 +161,10 @@ class SchemaChecker:
                             )
                         )
                         self._all_new(field.type, path + [name])
-                    elif isinstance(oldfield.type, t.Struct) and not isinstance(
-                        field.type, t.Struct
+                    elif (
+                        isinstance(oldfield.type, t.Struct)
+                        and not isinstance(field.type, t.Struct)
+                        and field.type != t.List(oldfield.type)
                     ):
                         self.changes.append(
                             FieldAdded(
-- 
2.43.0


From 82513c75c03e517b1106ceda824fff420344c075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 46/62] fix: checkpoints with keys of more than 12 digits are
 found by their whole key

---
 hyperstate/hyperstate.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 53c560e..11195a5 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -1,6 +1,7 @@
 import os
 import errno
 import os
+import re
 import shutil
 from abc import ABC, abstractmethod
 from pathlib import Path
@@ -384,13 +385,12 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and d.name.startswith("latest") and len(d.name) >= 12:
-            try:
-                if latest is None or int(d.name[-12:]) > latest:
-                    latest = int(d.name[-12:])
-                    latest_dir = d
-            except ValueError:
-                pass
+        # The key is padded to 12 characters, but may be longer
+        key = re.search("(-[0-9]{11,}|[0-9]{12,})$", d.name)
+        if d.is_dir() and d.name.startswith("latest") and key is not None:
+            if latest is None or int(key.group()) > latest:
+                latest = int(key.group())
+                latest_dir = d
     return latest_dir
 
 
-- 
2.43.0


From 818de6eb500de526ca955b2b6974264da9f979fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:04 +0000
Subject: [PATCH 47/62] fix: a copy of a lazy object loads its fields on its
 own

---
 hyperstate/lazy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 39115f0..ae49884 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -76,13 +76,21 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            unloaded.pop(name, None)
+            self._set_loaded(name)
         return super(Lazy, self).__getattribute__(name)
 
     def __setattr__(self, name: str, value: Any) -> None:
         super(Lazy, self).__setattr__(name, value)
         # An assigned value takes the place of the one that has not been loaded yet.
-        self.__dict__.get("_unloaded_lazy_fields", {}).pop(name, None)
+        self._set_loaded(name)
+
+    def _set_loaded(self, name: str) -> None:
+        unloaded = self.__dict__.get("_unloaded_lazy_fields", {})
+        if name in unloaded:
+            # Copies of this object share the dictionary, and have not loaded the field.
+            self.__dict__["_unloaded_lazy_fields"] = {
+                field: blob for field, blob in unloaded.items() if field != name
+            }
 
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
-- 
2.43.0


From a98e8b4ee10e9359179e4f5fdb2b562781d735ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:40 +0000
Subject: [PATCH 48/62] fix: the field search of help also looks into optional
 and listed dataclasses

---
 hyperstate/schema/help.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index a6d1361..11b9d17 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -95,6 +95,7 @@ def find_fields(
     result = []
     for f in schema.fields.values():
         result.append((path or [], name_similarity(f.name, query), f))
-        if isinstance(f.type, t.Struct):
-            result.extend(find_fields(f.type, query, (path or []) + [f.name]))
+        unwrapped = _unwrap_container_type(f.type)
+        if isinstance(unwrapped, t.Struct):
+            result.extend(find_fields(unwrapped, query, (path or []) + [f.name]))
     return result
-- 
2.43.0


From a5941a42a7669217e1948e81aa6516a592fbaedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 49/62] fix: stateful commands do not take an empty config path
 for none

---
 hyperstate/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/command.py b/hyperstate/command.py
index fe630f6..ecb198d 100644
--- a/hyperstate/command.py
+++ b/hyperstate/command.py
@@ -110,7 +110,7 @@ def stateful_command(
                 cfg_cls,
                 state_cls,
                 initial_state=initial_state,
-                init_path=args.config or args.resume_from,
+                init_path=args.resume_from if args.config is None else args.config,
                 checkpoint_dir=args.checkpoint_dir,
                 overrides=args.hyperparams,
                 checkpoint_key=checkpoint_key,
-- 
2.43.0


From 16811cf6dd2ad595844be58f3583a8a8433e918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:08 +0000
Subject: [PATCH 50/62] fix: set scheduled values and serializable objects
 inside tuples

Schedules and Serializable objects that are elements of a tuple were
accepted, and then failed with a TypeError since tuples cannot be
assigned to. The tuple is replaced instead.
---
 hyperstate/hyperstate.py | 41 ++++++++++++++++++++++++++++++----------
 hyperstate/schedule.py   |  2 +-
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 11195a5..72b268e 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -220,13 +220,20 @@ class FieldsNotFoundError(Exception):
         self.not_found_errors = not_found_errors
 
 
-def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> None:
+def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> Any:
+    """
+    Updates all scheduled values and returns `config`, or its replacement if it is a tuple.
+    """
     for field_name, schedule in schedules.items():
         if isinstance(schedule, Schedule):
-            schedule.update_value(config, state)
+            config = schedule.update_value(config, state)
         else:
             assert isinstance(schedule, dict)
-            _apply_schedules(state, _get_child(config, field_name), schedule)
+            child = _get_child(config, field_name)
+            updated = _apply_schedules(state, child, schedule)
+            if updated is not child:
+                config = _set_child(config, field_name, updated)
+    return config
 
 
 def _container_key(container: Any, segment: str) -> Any:
@@ -242,11 +249,25 @@ def _get_child(parent: Any, segment: str) -> Any:
     return getattr(parent, segment)
 
 
-def _set_child(parent: Any, segment: str, value: Any) -> None:
-    if isinstance(parent, (list, tuple, dict)):
+def _set_child(parent: Any, segment: str, value: Any) -> Any:
+    """Sets a child of `parent` and returns `parent`, or its replacement if it is a tuple."""
+    if isinstance(parent, tuple):
+        index = int(segment)
+        return parent[:index] + (value,) + parent[index + 1 :]
+    elif isinstance(parent, (list, dict)):
         parent[_container_key(parent, segment)] = value  # type: ignore
     else:
         setattr(parent, segment, value)
+    return parent
+
+
+def _set_descendant(parent: Any, segments: List[str], value: Any) -> Any:
+    if len(segments) > 1:
+        child = _get_child(parent, segments[0])
+        value = _set_descendant(child, segments[1:], value)
+        if value is child:
+            return parent
+    return _set_child(parent, segments[0], value)
 
 
 def _typed_dump(
@@ -339,9 +360,9 @@ def _attach_blobs(state: Any, blobs: Dict[str, Any], ctx: Dict[str, Any]) -> Non
                 owner._deserialize_ctx = ctx
             owner._unloaded_lazy_fields[name] = blob  # type: ignore
         else:
-            eager.append((owner, name, blob))
-    for owner, name, blob in eager:
-        _set_child(owner, name, _load_blob(*blob, state, ctx))
+            eager.append((parents + [name], blob))
+    for segments, blob in eager:
+        _set_descendant(state, segments, _load_blob(*blob, state, ctx))
 
 
 def loads(
@@ -510,10 +531,10 @@ class ScheduleDeserializer(Deserializer):
             segments = path.replace("[", ".").replace("]", "").split(".")
             field_name = segments[-1]
 
-            def update(self: T, state: Any) -> None:
+            def update(self: T, state: Any) -> Any:
                 x = getattr(state, schedule.xname)
                 value = schedule.get_value(x)
-                _set_child(self, field_name, cls(value))  # type: ignore
+                return _set_child(self, field_name, cls(value))  # type: ignore
 
             schedules = self.schedules
             for segment in segments[:-1]:
diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 5777a12..65b5ca0 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -21,7 +21,7 @@ INTERPOLATORS = {
 
 @dataclass
 class Schedule:
-    update_value: Callable[[Any, Any], None]
+    update_value: Callable[[Any, Any], Any]
     unparsed: str
 
 
-- 
2.43.0


From dd9396c98c3a38b08d441fca224588ef9c32102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 51/62] fix: dictionary keys with special characters in field
 paths

Schedules and Serializable objects in dictionaries whose keys contain
characters like '.' or '/', or are floats or enums, were not found again
or written to a file outside the checkpoint.
---
 hyperstate/hyperstate.py |  3 ++-
 hyperstate/serde.py      | 25 ++++++++++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 72b268e..a083197 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -33,6 +33,7 @@ from hyperstate.serde import (
     Serializer,
     asdict,
     is_optional,
+    path_segment,
 )
 from hyperstate.schema.rewrite_rule import WEAK_REF
 import hyperstate.serde as serde
@@ -239,7 +240,7 @@ def _apply_schedules(state: Any, config: Any, schedules: Dict[str, Any]) -> Any:
 def _container_key(container: Any, segment: str) -> Any:
     """Returns the index or key of `container` that `segment` of a field path refers to."""
     if isinstance(container, dict):
-        return next(key for key in container if str(key) == segment)
+        return next(key for key in container if path_segment(key) == segment)
     return int(segment)
 
 
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index b1b3519..8cae861 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -17,6 +17,7 @@ from typing import (
     Union,
 )
 import inspect
+import re
 from dataclasses import MISSING, is_dataclass
 import typing
 
@@ -97,7 +98,7 @@ def asdict(
                 value=v,
                 named_tuples=named_tuples,
                 serializers=serializers,
-                file=k if file == "" else f"{file}.{k}",
+                file=path_segment(k) if file == "" else f"{file}.{path_segment(k)}",
             )
             for k, v in value.items()
         }
@@ -137,6 +138,18 @@ def asdict(
         )
 
 
+def path_segment(key: Any) -> str:
+    """
+    Returns the segment that stands for a dictionary key in the path of a field or the name of a blob file.
+    """
+    segment = str(asdict(key))
+    if re.search(r"[./\[\]\0]|%[0-9A-F]{2}", segment):
+        segment = re.sub(
+            r"[%./\[\]\0]", lambda m: f"%{ord(m.group()):02X}", segment
+        )
+    return segment
+
+
 def from_dict(
     clz: Type[T],
     value: Any,
@@ -248,10 +261,12 @@ def from_dict(
         and isinstance(value, dict)
         and "!__name__" not in value
     ):
-        return {
-            from_dict(clz.__args__[0], k): from_dict(clz.__args__[1], v, deserializers, f"{fpath}.{k}", ignore_extra_fields)  # type: ignore
-            for k, v in value.items()
-        }
+        result = {}
+        for k, v in value.items():
+            key = from_dict(clz.__args__[0], k)  # type: ignore
+            path = f"{fpath}.{path_segment(key)}"
+            result[key] = from_dict(clz.__args__[1], v, deserializers, path, ignore_extra_fields)  # type: ignore
+        return result  # type: ignore
     elif is_dataclass(clz):
         if is_dataclass(value):
             value = asdict(value)
-- 
2.43.0


From 14e3d94e5b1db80c6deb1c8b82fca7854019afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:13 +0000
Subject: [PATCH 52/62] fix: refuse to save and load arrays of Python objects

They were saved as addresses, which crashed the process that loaded
them.
---
 hyperstate/msgpack_torch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 659daf1..adbf05e 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -14,6 +14,9 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
         tensor_type = "torch"
 
     if isinstance(obj, np.ndarray):
+        if obj.dtype.hasobject:
+            # The data would be addresses
+            raise TypeError(f"Can't serialize array of type {obj.dtype}")
         return {
             b"__tensor__": tensor_type or "numpy",
             b"dtype": obj.dtype.str,
@@ -27,6 +30,8 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     try:
         if b"__tensor__" in obj:
+            if np.dtype(obj[b"dtype"]).hasobject:
+                raise ValueError(f"Can't deserialize array of type {obj[b'dtype']}")
             tensor: Any = np.ndarray(
                 buffer=obj[b"data"],
                 dtype=np.dtype(obj[b"dtype"]),
-- 
2.43.0


From e88e59f17bbb6cc8204e48a217e6c72c3419455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 53/62] fix: the report of a renamed enum variant names the old
 variant

---
 hyperstate/schema/schema_change.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_change.py b/hyperstate/schema/schema_change.py
index b35e896..43600c3 100644
--- a/hyperstate/schema/schema_change.py
+++ b/hyperstate/schema/schema_change.py
@@ -226,7 +226,7 @@ class EnumVariantRenamed(SchemaChange):
         return Severity.INFO
 
     def diagnostic(self) -> str:
-        return f"variant {self.new_variant_name} of {self.enum_name} renamed to {self.new_variant_name}"
+        return f"variant {self.old_variant_name} of {self.enum_name} renamed to {self.new_variant_name}"
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From 03d8fe0803159c824961a95b137809b3cd0532af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:24 +0000
Subject: [PATCH 54/62] fix: the report of a new field says whether it has a
 default value

---
 hyperstate/schema/schema_change.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_change.py b/hyperstate/schema/schema_change.py
index 43600c3..428043a 100644
--- a/hyperstate/schema/schema_change.py
+++ b/hyperstate/schema/schema_change.py
@@ -94,6 +94,8 @@ class FieldAdded(SchemaChange):
         return None
 
     def diagnostic(self) -> str:
+        if self.has_default:
+            return "new field with default value"
         return "new field without default value"
 
 
-- 
2.43.0


From 1cffab644ff4c267601529c789ffd9db3228f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:08 +0000
Subject: [PATCH 55/62] fix: arrays of records keep their field names and types

---
 hyperstate/msgpack_torch.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index adbf05e..02f5e11 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -19,7 +19,7 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
             raise TypeError(f"Can't serialize array of type {obj.dtype}")
         return {
             b"__tensor__": tensor_type or "numpy",
-            b"dtype": obj.dtype.str,
+            b"dtype": np.lib.format.dtype_to_descr(obj.dtype),
             b"shape": obj.shape,
             b"data": np.ndarray.tobytes(obj),
         }
@@ -27,14 +27,29 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
         return obj if chain is None else chain(obj)
 
 
+def _to_descr(dtype: Any) -> Any:
+    # The fields of record types are tuples, which msgpack turns into lists
+    if isinstance(dtype, str):
+        return dtype
+    return [
+        (
+            field[0] if isinstance(field[0], str) else tuple(field[0]),
+            _to_descr(field[1]),
+            *map(tuple, field[2:]),
+        )
+        for field in dtype
+    ]
+
+
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     try:
         if b"__tensor__" in obj:
-            if np.dtype(obj[b"dtype"]).hasobject:
+            dtype = np.lib.format.descr_to_dtype(_to_descr(obj[b"dtype"]))
+            if dtype.hasobject:
                 raise ValueError(f"Can't deserialize array of type {obj[b'dtype']}")
             tensor: Any = np.ndarray(
                 buffer=obj[b"data"],
-                dtype=np.dtype(obj[b"dtype"]),
+                dtype=dtype,
                 shape=obj[b"shape"],
             )
             if obj[b"__tensor__"] == "torch" and torch is not None:
-- 
2.43.0


From c4d7250e9b12d628c7f4f30d705f405daef4c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:03 +0000
Subject: [PATCH 56/62] fix: unions keep values that fit an alternative, and
 take lists and dictionaries

---
 hyperstate/serde.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 8cae861..d7156fe 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -179,6 +179,9 @@ def from_dict(
         ustr = str in clz.__args__  # type: ignore
         ufloat = float in clz.__args__  # type: ignore
         uint = int in clz.__args__  # type: ignore
+        if type(value) in clz.__args__:  # type: ignore
+            # Nothing to convert
+            return value
     else:
         ustr = False
         ufloat = False
@@ -213,16 +216,16 @@ def from_dict(
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-                    if value["!__name__"] == arg.__name__:
+                    if value["!__name__"] == getattr(arg, "__name__", None):
                         return from_dict(arg, value, deserializers, fpath, ignore_extra_fields)  # type: ignore
             for arg in clz.__args__:  # type: ignore
-                if hasattr(arg, "__args__") and arg.get_origin() == typing.Dict:
+                if typing.get_origin(arg) is dict:
                     return from_dict(  # type: ignore
                         arg, value, deserializers, fpath, ignore_extra_fields
                     )
         elif isinstance(value, list):
             for arg in clz.__args__:  # type: ignore
-                if hasattr(arg, "__args__") and arg.get_origin() == typing.List:
+                if typing.get_origin(arg) is list:
                     return from_dict(  # type: ignore
                         arg, value, deserializers, fpath, ignore_extra_fields
                     )
-- 
2.43.0


From 71933512029182cb378f981df76441f859ecb996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:22 +0000
Subject: [PATCH 57/62] fix: configs with fields that start with an underscore
 can be written

---
 hyperstate/serde.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index d7156fe..0061e53 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -89,7 +89,7 @@ def asdict(
         for serializer in serializers:
             serializer.modify_dataclass_attrs(value, attrs, file)
         if named_tuples:
-            return namedtuple(value.__class__.__name__, attrs.keys())(**attrs)
+            return to_namedtuple(value.__class__.__name__, attrs)
         else:
             return attrs
     elif isinstance(value, dict):
@@ -138,6 +138,13 @@ def asdict(
         )
 
 
+def to_namedtuple(name: str, attrs: Dict[str, Any]) -> Any:
+    # Unlike fields of dataclasses, those of named tuples can't start with an underscore
+    clz = namedtuple(name, attrs.keys(), rename=True)
+    clz._fields = tuple(attrs.keys())  # type: ignore
+    return clz(*attrs.values())
+
+
 def path_segment(key: Any) -> str:
     """
     Returns the segment that stands for a dictionary key in the path of a field or the name of a blob file.
@@ -232,7 +239,7 @@ def from_dict(
         # TODO: Union with other types (Literal, ...)
         if isinstance(value, dict) and "!__name__" in value:
             fields = {k: v for k, v in value.items() if k != "!__name__"}
-            value = namedtuple(value["!__name__"], fields.keys())(**fields)
+            value = to_namedtuple(value["!__name__"], fields)
         raise DeserializeValueError(
             f"Expected {fpath} to be one of {clz.__args__}, got {value}"  # type: ignore
         )
@@ -333,7 +340,7 @@ def from_dict(
         raise DeserializeValueError(f"{fpath} must be one of {args} but got '{value}'.")
     if isinstance(value, dict) and "!__name__" in value:
         fields = {k: v for k, v in value.items() if k != "!__name__"}
-        value = namedtuple(value["!__name__"], fields.keys())(**fields)
+        value = to_namedtuple(value["!__name__"], fields)
     if isnamedtupleinstance(value) and len(value) == 0:
         value = value.__class__.__name__
     raise DeserializeTypeError(
-- 
2.43.0


From ec76093c9463bddcc6a3c08518cc57f3df7268f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:52 +0000
Subject: [PATCH 58/62] fix: a state is never made afresh when its checkpoint
 goes away after the config was read

---
 hyperstate/hyperstate.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index a083197..6ab8617 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -83,6 +83,7 @@ class StateManager(Generic[C, S]):
         self.checkpoint_key = checkpoint_key
 
         self.init_path = Path(init_path) if init_path is not None else None
+        self._init_checkpoint: Optional[Path] = None
         self._last_checkpoint: Optional[Path] = None
         self.checkpoint_dir = (
             Path(checkpoint_dir) if checkpoint_dir is not None else None
@@ -163,6 +164,8 @@ class StateManager(Generic[C, S]):
         else:
             path = self._last_checkpoint
         if path is not None and path.is_dir():
+            # The state comes from here as well, even if the checkpoint is gone by the time it is loaded
+            self._init_checkpoint = path
             path = path / "config.ron"
         return _typed_load(
             self.config_cls,
@@ -173,12 +176,13 @@ class StateManager(Generic[C, S]):
         )
 
     def _load_state(self) -> S:
+        config = self.config
         if self._last_checkpoint is not None:
             path = self._last_checkpoint
-        elif self.init_path is not None and self.init_path.is_dir():
-            path = self.init_path
+        elif self._init_checkpoint is not None:
+            path = self._init_checkpoint
         else:
-            return self._initial_state(self.config, self._deserialize_ctx)
+            return self._initial_state(config, self._deserialize_ctx)
         return _typed_load(
             self.state_cls,
             file=path / "state.ron",
-- 
2.43.0


From df9290dea2a1e63e6c2036401c1725fc9c73e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:56 +0000
Subject: [PATCH 59/62] fix: looking for the latest checkpoint takes into
 account that another process may replace it

---
 hyperstate/hyperstate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 6ab8617..3ab0309 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -417,6 +417,9 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
             if latest is None or int(key.group()) > latest:
                 latest = int(key.group())
                 latest_dir = d
+        elif d.name.startswith("latest") and key is not None and not os.path.lexists(d):
+            # Another process has replaced this checkpoint by a newer one since the directory was listed
+            return find_latest_checkpoint(dir)
     return latest_dir
 
 
-- 
2.43.0


From b205cd88ffe42dd909cfcc7636e4d5eebccc08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:27 +0000
Subject: [PATCH 60/62] fix: texts with apostrophes and unprintable characters
 can be loaded back after they were dumped

---
 hyperstate/schema/schema_checker.py |  5 ++---
 hyperstate/serde.py                 | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 35c2fe2..0f211e5 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -4,7 +4,6 @@ from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
 
-import pyron
 import click
 
 from hyperstate.hyperstate import _typed_dump, _typed_load
@@ -26,7 +25,7 @@ from hyperstate.schema.schema_change import (
 )
 from hyperstate.schema.rewrite_rule import MapFieldValue
 from hyperstate.schema.versioned import Versioned
-from hyperstate.serde import asdict
+from hyperstate.serde import asdict, to_ron
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -413,7 +412,7 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(asdict(materialize_type(type), named_tuples=True))
+    serialized = to_ron(asdict(materialize_type(type), named_tuples=True))
     with open(filename, "w") as f:
         f.write(serialized)
 
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 0061e53..d124160 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -452,7 +452,20 @@ def dumps(
     if serializers is None:
         serializers = []
     state_dict = asdict(obj, named_tuples=True, serializers=serializers)
-    return pyron.to_string(state_dict)
+    return to_ron(state_dict)
+
+
+def to_ron(value: Any) -> str:
+    """
+    Like `pyron.to_string`, except that it only uses escape sequences `pyron.loads` understands.
+    """
+
+    def unescape(match: "re.Match[str]") -> str:
+        if match.group(1) is not None:
+            return chr(int(match.group(1), 16))
+        return "'" if match.group(2) == "'" else match.group(0)
+
+    return re.sub(r"\\(?:u\{([0-9a-f]+)\}|(.))", unescape, pyron.to_string(value))
 
 
 def is_optional(clz: Type[Any]) -> bool:
-- 
2.43.0


From f4ed6f7f851c4a7fc233797dc926ca3b89bc8631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:16 +0000
Subject: [PATCH 61/62] fix: serializable objects are found where they were
 saved when upgrades move their fields

---
 hyperstate/hyperstate.py |  3 ++-
 hyperstate/lazy.py       | 57 +++++++++++++++++++++++++++++++++++++---
 2 files changed, 55 insertions(+), 5 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 3ab0309..fd4fc03 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -37,7 +37,7 @@ from hyperstate.serde import (
 )
 from hyperstate.schema.rewrite_rule import WEAK_REF
 import hyperstate.serde as serde
-from .lazy import Lazy, LazyDeserializer, LazySerializer, _load_blob
+from .lazy import BlobLocator, Lazy, LazyDeserializer, LazySerializer, _load_blob
 import pyron
 
 from hyperstate.schedule import Schedule, _parse_schedule
@@ -331,6 +331,7 @@ def _typed_load(
     if file is not None:
         lazy = LazyDeserializer(config, file.absolute().parent)
         deserializers.append(lazy)
+        deserializers.insert(0, BlobLocator())
         value = serde.load(
             clz,
             file,
diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index ae49884..1db78dc 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -14,7 +14,7 @@ from dataclasses import dataclass, field
 from pathlib import Path
 import msgpack
 
-from hyperstate.serde import Serializer, Deserializer
+from hyperstate.serde import Serializer, Deserializer, path_segment
 from hyperstate import msgpack_torch
 
 
@@ -104,6 +104,54 @@ class Lazy:
         self._deserialize_ctx[key] = value
 
 
+class BlobRef(str):
+    """
+    The text that stands for a serializable object in a file.
+    `path` is the field it was saved as, from which upgrades may have moved it.
+    """
+
+    path: str
+
+
+def _locate_blobs(value: Any, path: str) -> Any:
+    if isinstance(value, str):
+        if value in ("<BLOB>", "<blob:pickle>", "<blob:msgpack>"):
+            ref = BlobRef(value)
+            ref.path = path
+            return ref
+    elif isinstance(value, dict):
+        prefix = f"{path}." if path else ""
+        return {
+            k: _locate_blobs(v, f"{prefix}{path_segment(k)}") for k, v in value.items()
+        }
+    elif isinstance(value, list):
+        return [_locate_blobs(v, f"{path}[{i}]") for i, v in enumerate(value)]
+    elif type(value) is tuple:
+        return tuple(_locate_blobs(v, f"{path}[{i}]") for i, v in enumerate(value))
+    return value
+
+
+class BlobLocator(Deserializer):
+    """
+    Records which file each serializable object is in. Precedes all other deserializers.
+    """
+
+    def deserialize(
+        self,
+        cls: Type[T],
+        value: Any,
+        path: str,
+    ) -> Tuple[Optional[T], bool, bool]:
+        if path == "":
+            return _locate_blobs(value, path), True, False
+        if isinstance(value, BlobRef) and not (
+            inspect.isclass(cls) and issubclass(cls, Serializable)
+        ):
+            # Just a text
+            return str(value), True, False  # type: ignore
+        return None, False, False
+
+
 @dataclass
 class LazyDeserializer(Deserializer, Generic[C]):
     config: C
@@ -124,15 +172,16 @@ class LazyDeserializer(Deserializer, Generic[C]):
                 or value == "<blob:pickle>"
                 or value == "<blob:msgpack>"
             )
+            saved = value.path if isinstance(value, BlobRef) else path
             if value == "<BLOB>":
-                filepath = path.replace(".", "/").replace("[", "/").replace("]", "")
+                filepath = saved.replace(".", "/").replace("[", "/").replace("]", "")
             elif value == "<blob:pickle>":
                 filepath = (
-                    "state." + path.replace("[", "_").replace("]", "") + ".pickle"
+                    "state." + saved.replace("[", "_").replace("]", "") + ".pickle"
                 )
             else:
                 filepath = (
-                    "state." + path.replace("[", ".").replace("]", "") + ".msgpack"
+                    "state." + saved.replace("[", ".").replace("]", "") + ".msgpack"
                 )
             self.lazy_fields[path] = (
                 cls,
-- 
2.43.0


From 2cb8202e37f1f58471be5901e418f7660819c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:05 +0000
Subject: [PATCH 62/62] fix: ill-formed schedules are refused

---
 hyperstate/schedule.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 65b5ca0..1d448d5 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -77,11 +77,19 @@ def _parse_schedule(schedule: str) -> PiecewiseFunction:
     interpolator = INTERPOLATORS["lin"]
     last_x, last_y = None, None
     xname = parts[0][:-1]
+    if not parts[0].endswith(":"):
+        raise ValueError(f"Expected a field name and a colon before '{schedule}'.")
     segments: List[ScheduleSegment] = []
+    pending = False
     for part in parts[1:]:
         if "@" in part:
             _y, _x = part.split("@")
             y, x = float(_y), float(_x)
+            if not math.isfinite(x) or not math.isfinite(y):
+                raise ValueError(f"Point '{part}' of '{schedule}' is not finite.")
+            if last_x is not None and x < last_x:
+                raise ValueError(f"Points of '{schedule}' are not in order.")
+            pending = False
             if last_x is not None:
                 segments.append(
                     ScheduleSegment(
@@ -94,8 +102,13 @@ def _parse_schedule(schedule: str) -> PiecewiseFunction:
                 )
             last_x, last_y = x, y
         else:
+            if pending:
+                raise ValueError(f"'{schedule}' lacks a point before '{part}'.")
             interpolator = INTERPOLATORS[part]
-    if len(segments) == 0 and last_x is not None:
+            pending = True
+    if pending or last_x is None:
+        raise ValueError(f"'{schedule}' lacks a point at its end.")
+    if len(segments) == 0:
         # A single point is a constant schedule.
         segments.append(
             ScheduleSegment(
-- 
2.43.0

