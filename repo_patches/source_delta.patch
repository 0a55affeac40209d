From 63d53452b08dce837fb6c9a3e1ff110272f6c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 01/23] fix: subtract shaped from linear without duplicate
 reversed segments

Both events of every remaining piece were turned into segments, so each piece
appeared twice in the resulting multisegment.
---
 rene/_clipping/difference.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index 5aea7a6..e5b6d91 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -20,7 +20,7 @@ from rene._utils import (
 from rene.enums import Orientation
 
 from . import linear, mixed, shaped
-from .event import Event, is_event_right
+from .event import Event, is_event_left, is_event_right
 
 
 class LinearDifference(linear.Operation[hints.ScalarT]):
@@ -239,7 +239,8 @@ def subtract_multipolygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -382,7 +383,8 @@ def subtract_multipolygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
@@ -689,7 +691,8 @@ def subtract_polygon_from_multisegmental(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     segments = operation.reduce_events(events, segment_cls)
     segments.extend(
         minuend_segments[index]
@@ -803,7 +806,8 @@ def subtract_polygon_from_segment(
     for event in operation:
         if operation.to_event_start(event).x > minuend_max_x:
             break
-        events.append(event)
+        if is_event_left(event):
+            events.append(event)
     return collect_maybe_empty_segments(
         operation.reduce_events(events, segment_cls),
         empty_cls,
-- 
2.43.0


From 1c22f28cec830d44b6b5d0bbfa5ec1eceb189d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 02/23] fix: subtract shaped from linear lying on its boundary
 when bounding boxes only touch

The shortcut for bounding boxes without common area returned the minuend
unchanged even if its segments overlap the subtrahend's border.
---
 rene/_clipping/difference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rene/_clipping/difference.py b/rene/_clipping/difference.py
index e5b6d91..176e837 100644
--- a/rene/_clipping/difference.py
+++ b/rene/_clipping/difference.py
@@ -178,7 +178,7 @@ def subtract_multipolygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -340,7 +340,7 @@ def subtract_multipolygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -646,7 +646,7 @@ def subtract_polygon_from_multisegmental(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
@@ -779,7 +779,7 @@ def subtract_polygon_from_segment(
         minuend.bounding_box,
         subtrahend.bounding_box,
     )
-    if do_boxes_have_no_common_area(
+    if do_boxes_have_no_common_continuum(
         minuend_bounding_box, subtrahend_bounding_box
     ):
         return minuend
-- 
2.43.0


From 89ffabccfd12cc67b565eb6b329b83007e63efcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 03/23] fix: remove processed segments from the sweep line when
 relating linear and shaped

---
 rene/_relating/mixed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 9719c02..af6ce7b 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -473,7 +473,7 @@ class Operation(ABC, Generic[hints.ScalarT]):
 
     def _remove(self, event: Event, /) -> None:
         assert is_event_left(event)
-        self._sweep_line_data[self._to_sweep_line_key(event)] = event
+        del self._sweep_line_data[self._to_sweep_line_key(event)]
 
     def _to_left_event(self, event: Event, /) -> Event:
         return (
-- 
2.43.0


From 5d3da4bc05b2241bb6ea5b1bcff115349d8f137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 04/23] fix: relate polygons regardless of orientation of their
 contours

---
 rene/_relating/multisegmental.py | 11 +----------
 rene/_relating/utils.py          | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index a4326ba..6506699 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -289,16 +289,7 @@ def relate_to_polygon(
     ]
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
-        chain(
-            polygon.border.segments,
-            chain.from_iterable(
-                hole.segments
-                for hole in polygon.holes
-                if not hole.bounding_box.disjoint_with(
-                    multisegmental_bounding_box
-                )
-            ),
-        ),
+        polygon_to_segments(polygon, multisegmental_bounding_box),
         orienteer,
         segments_intersector,
     ).to_relation(
diff --git a/rene/_relating/utils.py b/rene/_relating/utils.py
index 8db4c4a..198675a 100644
--- a/rene/_relating/utils.py
+++ b/rene/_relating/utils.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import typing as t
 from itertools import chain
 
+from rene.enums import Orientation
+
 if t.TYPE_CHECKING:
     from rene import hints
 
@@ -13,10 +15,23 @@ def polygon_to_segments(
     /,
 ) -> t.Iterable[hints.Segment[hints.ScalarT]]:
     return chain(
-        polygon.border.segments,
+        _contour_to_oriented_segments(
+            polygon.border, Orientation.COUNTERCLOCKWISE
+        ),
         chain.from_iterable(
-            hole.segments
+            _contour_to_oriented_segments(hole, Orientation.CLOCKWISE)
             for hole in polygon.holes
             if not hole.bounding_box.disjoint_with(bounding_box)
         ),
     )
+
+
+def _contour_to_oriented_segments(
+    contour: hints.Contour[hints.ScalarT], orientation: Orientation, /
+) -> t.Iterable[hints.Segment[hints.ScalarT]]:
+    segments = contour.segments
+    return (
+        segments
+        if contour.orientation is orientation
+        else [type(segment)(segment.end, segment.start) for segment in segments]
+    )
-- 
2.43.0


From 353caceecd3c612c02e7c2656db93883b746e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 05/23] fix: relate shaped to linear with complement of
 relation of linear to shaped

---
 rene/_relating/mixed.py        | 12 ++++++++++++
 rene/_relating/multipolygon.py |  6 +++---
 rene/_relating/polygon.py      |  6 +++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index af6ce7b..0c76293 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -564,6 +564,18 @@ class ShapedLinearOperation(Operation[hints.ScalarT]):
             self._to_left_event(event)
         )
 
+    def to_relation(
+        self, /, *, linear_is_subset_of_shaped: bool, min_max_x: hints.ScalarT
+    ) -> Relation:
+        return (
+            super()
+            .to_relation(
+                linear_is_subset_of_shaped=linear_is_subset_of_shaped,
+                min_max_x=min_max_x,
+            )
+            .complement
+        )
+
 
 class RelationState(Generic[hints.ScalarT]):
     def update(
diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 9293f59..8720070 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -232,12 +232,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
diff --git a/rene/_relating/polygon.py b/rene/_relating/polygon.py
index 8939f9c..b94d750 100644
--- a/rene/_relating/polygon.py
+++ b/rene/_relating/polygon.py
@@ -168,12 +168,12 @@ def relate_to_multisegmental(
         )
         return (
             Relation.TOUCH
-            if relation is Relation.COMPONENT
+            if relation is Relation.COMPOSITE
             else (
                 Relation.CROSS
                 if (
-                    relation is Relation.ENCLOSED
-                    or relation is Relation.WITHIN
+                    relation is Relation.ENCLOSES
+                    or relation is Relation.COVER
                 )
                 else relation
             )
-- 
2.43.0


From a3f802bdfdbd7bdf2447da2273b4b20e4ff3e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 06/23] fix: relate multipolygon to linear between its polygons

---
 rene/_relating/multipolygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 8720070..f249fa2 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -249,6 +249,8 @@ def relate_to_multisegmental(
     intersecting_polygons_ids = to_boxes_ids_with_intersection(
         multipolygon_boxes, multisegmental_bounding_box
     )
+    if not intersecting_polygons_ids:
+        return Relation.DISJOINT
     min_max_x = min(
         max(
             multipolygon_boxes[polygon_id].max_x
-- 
2.43.0


From 1586d42b490f4dc162ff81182a11408faa5baff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 07/23] fix: group events of overlapping segments regardless of
 events order when relating

---
 rene/_relating/linear.py | 9 +++++----
 rene/_relating/mixed.py  | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index c03a5f6..6ae96b1 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from itertools import chain, groupby
+from itertools import groupby
 from typing import Any, Generic, TYPE_CHECKING
 
 from dendroid import red_black
@@ -579,11 +579,12 @@ class RelationState(Generic[hints.ScalarT]):
         same_start_events: Sequence[Event],
         operation: Operation[hints.ScalarT],
     ) -> None:
-        for _, group in chain(
-            groupby(
+        for _, group in groupby(
+            sorted(
                 filter(is_event_left, same_start_events),
                 key=operation.to_event_end,
-            )
+            ),
+            key=operation.to_event_end,
         ):
             event = next(group)
             if next(group, None) is not None:
diff --git a/rene/_relating/mixed.py b/rene/_relating/mixed.py
index 0c76293..51b6415 100644
--- a/rene/_relating/mixed.py
+++ b/rene/_relating/mixed.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from itertools import chain, groupby
+from itertools import groupby
 from typing import Generic, TYPE_CHECKING
 
 from dendroid import red_black
@@ -586,11 +586,12 @@ class RelationState(Generic[hints.ScalarT]):
         if operation.has_border_intersection(same_start_events):
             if not self.linear_intersects_shaped_border:
                 self.linear_intersects_shaped_border = True
-            for _, group in chain(
-                groupby(
+            for _, group in groupby(
+                sorted(
                     filter(is_event_left, same_start_events),
                     key=operation.to_event_end,
-                )
+                ),
+                key=operation.to_event_end,
             ):
                 event = next(group)
                 if next(group, None) is not None:
-- 
2.43.0


From 21efae280a051e68887c76f24cbc598df155cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 08/23] fix: relate segment to polygon with sweep instead of
 incomplete analysis of contours

---
 rene/_relating/segment.py           |  89 ++--------
 rene/_relating/segment_endpoints.py | 242 ----------------------------
 rene/_relating/utils.py             |   4 +-
 3 files changed, 15 insertions(+), 320 deletions(-)

diff --git a/rene/_relating/segment.py b/rene/_relating/segment.py
index 7391910..4711e7e 100644
--- a/rene/_relating/segment.py
+++ b/rene/_relating/segment.py
@@ -10,7 +10,6 @@ from . import mixed
 from .segment_endpoints import (
     relate_to_contour as relate_endpoints_to_contour,
     relate_to_multisegment as relate_endpoints_to_multisegment,
-    relate_to_region as relate_endpoints_to_region,
     relate_to_segment_endpoints as relate_endpoints_to_endpoints,
 )
 from .utils import polygon_to_segments
@@ -74,36 +73,6 @@ def relate_to_multipolygon(
     ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
 
 
-def relate_to_multiregion(
-    segment: hints.Segment[hints.ScalarT],
-    borders: t.Sequence[hints.Contour[hints.ScalarT]],
-    orienteer: Orienteer[hints.ScalarT],
-    segments_intersector: SegmentsIntersector[hints.ScalarT],
-    /,
-) -> Relation:
-    assert len(borders) > 1, borders
-    segment_bounding_box = segment.bounding_box
-    regions_bounding_boxes = [border.bounding_box for border in borders]
-    intersecting_borders_ids = to_boxes_ids_with_intersection(
-        regions_bounding_boxes, segment_bounding_box
-    )
-    if not intersecting_borders_ids:
-        return Relation.DISJOINT
-    min_max_x = min(
-        segment_bounding_box.max_x,
-        max(
-            regions_bounding_boxes[border_id].max_x
-            for border_id in intersecting_borders_ids
-        ),
-    )
-    return mixed.LinearShapedOperation.from_segments_iterables(
-        [segment],
-        [edge for border in borders for edge in border.segments],
-        orienteer,
-        segments_intersector,
-    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
-
-
 def relate_to_multisegment(
     segment: hints.Segment[hints.ScalarT],
     multisegment: hints.Multisegment[hints.ScalarT],
@@ -127,53 +96,19 @@ def relate_to_polygon(
     segments_intersector: SegmentsIntersector[hints.ScalarT],
     /,
 ) -> Relation:
-    relation_without_holes = relate_to_region(
-        segment, polygon.border, reverse_orientation=False, orienteer=orienteer
-    )
-    holes = polygon.holes
-    if holes and (
-        relation_without_holes is Relation.WITHIN
-        or relation_without_holes is Relation.ENCLOSED
-    ):
-        relation_with_holes = (
-            relate_to_region(
-                segment,
-                holes[0],
-                reverse_orientation=True,
-                orienteer=orienteer,
-            )
-            if len(holes) == 1
-            else relate_to_multiregion(
-                segment, holes, orienteer, segments_intersector
-            )
-        )
-        if relation_with_holes is Relation.DISJOINT:
-            return relation_without_holes
-        if relation_with_holes is Relation.TOUCH:
-            return Relation.ENCLOSED
-        if relation_with_holes is Relation.ENCLOSED:
-            return Relation.TOUCH
-        if relation_with_holes is Relation.WITHIN:
-            return Relation.DISJOINT
-        return relation_with_holes
-    return relation_without_holes
-
-
-def relate_to_region(
-    segment: hints.Segment[hints.ScalarT],
-    border: hints.Contour[hints.ScalarT],
-    /,
-    *,
-    reverse_orientation: bool,
-    orienteer: Orienteer[hints.ScalarT],
-) -> Relation:
-    return relate_endpoints_to_region(
-        segment.start,
-        segment.end,
-        border,
-        reverse_orientation=reverse_orientation,
-        orienteer=orienteer,
+    segment_bounding_box, polygon_bounding_box = (
+        segment.bounding_box,
+        polygon.bounding_box,
     )
+    if segment_bounding_box.disjoint_with(polygon_bounding_box):
+        return Relation.DISJOINT
+    min_max_x = min(segment_bounding_box.max_x, polygon_bounding_box.max_x)
+    return mixed.LinearShapedOperation.from_segments_iterables(
+        [segment],
+        polygon_to_segments(polygon, segment_bounding_box),
+        orienteer,
+        segments_intersector,
+    ).to_relation(linear_is_subset_of_shaped=True, min_max_x=min_max_x)
 
 
 def relate_to_segment(
diff --git a/rene/_relating/segment_endpoints.py b/rene/_relating/segment_endpoints.py
index 493ed13..972819c 100644
--- a/rene/_relating/segment_endpoints.py
+++ b/rene/_relating/segment_endpoints.py
@@ -348,245 +348,3 @@ def relate_to_segment_endpoints(
             return Relation.TOUCH
         return Relation.DISJOINT
     return Relation.CROSS
-
-
-def relate_to_region(
-    start: hints.Point[hints.ScalarT],
-    end: hints.Point[hints.ScalarT],
-    border: hints.Contour[hints.ScalarT],
-    /,
-    *,
-    reverse_orientation: bool,
-    orienteer: Orienteer[hints.ScalarT],
-) -> Relation:
-    edges = border.segments
-    relation_with_border = _relate_to_region_border(
-        start, end, edges, orienteer
-    )
-    if (
-        relation_with_border is Relation.CROSS
-        or relation_with_border is Relation.COMPONENT
-    ):
-        return relation_with_border
-    start_index, start_location = _locate_point_in_region(
-        edges, start, orienteer
-    )
-    if relation_with_border is Relation.DISJOINT:
-        return (
-            Relation.DISJOINT
-            if start_location is Location.EXTERIOR
-            else Relation.WITHIN
-        )
-    if start_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    if start_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    assert start_index is not None
-    end_index, end_location = _locate_point_in_region(edges, end, orienteer)
-    if end_location is Location.EXTERIOR:
-        return Relation.TOUCH
-    if end_location is Location.INTERIOR:
-        return Relation.ENCLOSED
-    assert end_index is not None
-    assert end_location is Location.BOUNDARY, end_location
-    edge = edges[start_index]
-    edge_start, edge_end = edge.start, edge.end
-    border_orientation = (
-        Orientation.CLOCKWISE
-        if reverse_orientation
-        else Orientation.COUNTERCLOCKWISE
-    )
-    if start == edge_start:
-        prev_start = (
-            edges[(start_index + 1) % len(edges)].end
-            if reverse_orientation
-            else edges[start_index - 1].start
-        )
-        if orienteer(prev_start, edge_start, edge_end) is border_orientation:
-            if (
-                orienteer(edge_start, prev_start, end) is border_orientation
-            ) or (orienteer(edge_end, edge_start, end) is border_orientation):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_start, prev_start, end)
-            is orienteer(edge_end, edge_start, end)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif start == edge_end:
-        next_end = (
-            edges[start_index - 1].start
-            if reverse_orientation
-            else edges[(start_index + 1) % len(edges)].end
-        )
-        if (
-            orienteer(edge_start, edge_end, next_end) is border_orientation
-        ) and (
-            (orienteer(edge_end, edge_start, end) is border_orientation)
-            or (orienteer(next_end, edge_end, end) is border_orientation)
-            or (
-                orienteer(edge_end, edge_start, end)
-                is orienteer(next_end, edge_end, end)
-                is border_orientation
-            )
-        ):
-            return Relation.TOUCH
-    elif orienteer(edge_end, edge_start, end) is border_orientation:
-        return Relation.TOUCH
-    edge = edges[end_index]
-    edge_start, edge_end = edge.start, edge.end
-    if end == edge_start:
-        prev_start = (
-            edges[(end_index + 1) % len(edges)].end
-            if reverse_orientation
-            else edges[end_index - 1].start
-        )
-        if orienteer(prev_start, edge_start, edge_end) is border_orientation:
-            if (
-                orienteer(edge_start, prev_start, start) is border_orientation
-            ) or (
-                orienteer(edge_end, edge_start, start) is border_orientation
-            ):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_start, prev_start, start)
-            is orienteer(edge_end, edge_start, start)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif end == edge_end:
-        next_end = (
-            edges[end_index - 1].start
-            if reverse_orientation
-            else edges[(end_index + 1) % len(edges)].end
-        )
-        if orienteer(edge_start, edge_end, next_end) is border_orientation:
-            if (
-                orienteer(edge_end, edge_start, start) is border_orientation
-            ) or (orienteer(next_end, edge_end, start) is border_orientation):
-                return Relation.TOUCH
-        elif (
-            orienteer(edge_end, edge_start, start)
-            is orienteer(next_end, edge_end, start)
-            is border_orientation
-        ):
-            return Relation.TOUCH
-    elif orienteer(edge_end, edge_start, start) is border_orientation:
-        return Relation.TOUCH
-    return Relation.ENCLOSED
-
-
-def _relate_to_region_border(
-    start: hints.Point[hints.ScalarT],
-    end: hints.Point[hints.ScalarT],
-    edges: t.Sequence[hints.Segment[hints.ScalarT]],
-    orienteer: Orienteer[hints.ScalarT],
-    /,
-) -> Relation:
-    # similar to segment-in-contour check
-    # but cross has higher priority over overlap
-    # because cross with border will be considered as cross with region
-    # whereas overlap with border can't be an overlap with region
-    # and should be classified by further analysis
-    has_touch = has_overlap = False
-    last_touched_edge_index = last_touched_edge_start = None
-    for index, edge in enumerate(edges):
-        edge_start, edge_end = edge.start, edge.end
-        relation_with_edge = relate_to_segment_endpoints(
-            edge_start, edge_end, start, end, orienteer
-        )
-        if (
-            relation_with_edge is Relation.COMPONENT
-            or relation_with_edge is Relation.OVERLAP
-        ):
-            if not has_overlap:
-                has_overlap = True
-        elif (
-            relation_with_edge is Relation.COMPOSITE
-            or relation_with_edge is Relation.EQUAL
-        ):
-            return Relation.COMPONENT
-        elif relation_with_edge is Relation.CROSS:
-            return Relation.CROSS
-        elif relation_with_edge is Relation.TOUCH:
-            if not has_touch:
-                has_touch = True
-            else:
-                assert last_touched_edge_index is not None
-                assert last_touched_edge_start is not None
-                if (
-                    index - last_touched_edge_index == 1
-                    and start != edge_start
-                    and start != edge_end
-                    and end != edge_start
-                    and end != edge_end
-                    and (
-                        orienteer(start, end, edge_start)
-                        is Orientation.COLLINEAR
-                    )
-                    and point_vertex_line_divides_angle(
-                        start,
-                        edge_start,
-                        last_touched_edge_start,
-                        edge_end,
-                        orienteer,
-                    )
-                ):
-                    return Relation.CROSS
-            last_touched_edge_index = index
-            last_touched_edge_start = edge_start
-    if has_touch and last_touched_edge_index == len(edges) - 1:
-        first_edge = edges[0]
-        first_edge_start, first_edge_end = first_edge.start, first_edge.end
-        if (
-            (
-                relate_to_segment_endpoints(
-                    first_edge_start, first_edge_end, start, end, orienteer
-                )
-                is Relation.TOUCH
-            )
-            and start != first_edge_start
-            and start != first_edge_end
-            and end != first_edge_start
-            and end != first_edge_end
-            and (
-                orienteer(start, end, first_edge_start)
-                is Orientation.COLLINEAR
-            )
-            and point_vertex_line_divides_angle(
-                start,
-                first_edge_start,
-                edges[-1].start,
-                first_edge_end,
-                orienteer,
-            )
-        ):
-            return Relation.CROSS
-    return (
-        Relation.OVERLAP
-        if has_overlap
-        else (Relation.TOUCH if has_touch else Relation.DISJOINT)
-    )
-
-
-def _locate_point_in_region(
-    edges: t.Sequence[hints.Segment[hints.ScalarT]],
-    point: hints.Point[hints.ScalarT],
-    orienteer: Orienteer[hints.ScalarT],
-    /,
-) -> tuple[int | None, Location]:
-    result = False
-    point_y = point.y
-    for index, edge in enumerate(edges):
-        start, end = edge.start, edge.end
-        if (
-            locate_point_in_segment(start, end, point, orienteer)
-            is Location.BOUNDARY
-        ):
-            return index, Location.BOUNDARY
-        if (start.y > point_y) is not (end.y > point_y) and (
-            (end.y > start.y)
-            is (orienteer(start, end, point) is Orientation.COUNTERCLOCKWISE)
-        ):
-            result = not result
-    return None, (Location.INTERIOR if result else Location.EXTERIOR)
diff --git a/rene/_relating/utils.py b/rene/_relating/utils.py
index 198675a..e6b603a 100644
--- a/rene/_relating/utils.py
+++ b/rene/_relating/utils.py
@@ -33,5 +33,7 @@ def _contour_to_oriented_segments(
     return (
         segments
         if contour.orientation is orientation
-        else [type(segment)(segment.end, segment.start) for segment in segments]
+        else [
+            type(segment)(segment.end, segment.start) for segment in segments
+        ]
     )
-- 
2.43.0


From 6534458069b1beb4a474e3aa27d118077967f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 09/23] fix: count omitted segments when relating linear and
 multipolygon

---
 rene/_relating/multipolygon.py   | 2 +-
 rene/_relating/multisegmental.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index f249fa2..3f9f4c7 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -282,7 +282,7 @@ def relate_to_multisegmental(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 6506699..b68a4c8 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -108,7 +108,7 @@ def relate_to_multipolygon(
         orienteer,
         segments_intersector,
     ).to_relation(
-        linear_is_subset_of_shaped=len(intersecting_segments_ids)
+        linear_is_subset_of_shaped=len(intersecting_segments)
         == len(multisegmental_segments),
         min_max_x=min_max_x,
     )
-- 
2.43.0


From 35d7b308edcaa1fac63ca744f73e0ef07a279db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 10/23] fix: relate multisegmental with single intersecting
 segment equal to the other

---
 rene/_relating/multisegmental.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index b68a4c8..3153581 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -143,8 +143,10 @@ def relate_to_multisegmental(
         )
         return (
             Relation.OVERLAP
-            if relation is Relation.COMPONENT or relation is Relation.EQUAL
-            else relation
+            if relation is Relation.COMPONENT
+            else (
+                Relation.COMPOSITE if relation is Relation.EQUAL else relation
+            )
         )
     second_segments = second.segments
     second_boxes = [segment.bounding_box for segment in second_segments]
@@ -178,7 +180,11 @@ def relate_to_multisegmental(
                     )
                 )
             )
-            else relation.complement
+            else (
+                Relation.COMPONENT
+                if relation is Relation.EQUAL
+                else relation.complement
+            )
         )
     max_min_x = max(
         min(
-- 
2.43.0


From 2c13054f69d037734c3d9ca43f360123ad6da36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 11/23] fix: detect linear crossing at common points of more
 than two segments

---
 rene/_relating/linear.py | 72 ++++++++++------------------------------
 1 file changed, 18 insertions(+), 54 deletions(-)

diff --git a/rene/_relating/linear.py b/rene/_relating/linear.py
index 6ae96b1..8e36680 100644
--- a/rene/_relating/linear.py
+++ b/rene/_relating/linear.py
@@ -8,7 +8,7 @@ from prioq.base import PriorityQueue
 from typing_extensions import Self
 
 from rene import hints
-from rene._utils import all_same, is_even, square, to_sorted_pair
+from rene._utils import all_same, is_even, to_sorted_pair
 from rene.enums import Orientation, Relation
 
 from .event import Event, is_event_left, is_event_right, left_event_to_position
@@ -68,32 +68,23 @@ class Operation(Generic[hints.ScalarT]):
                 else from_second_events
             ).append(event)
         start = self.to_event_start(same_start_events[0])
-        base_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                self.to_event_end(from_second_events[0]), event
-            ),
-        )
-        base_end = self.to_event_end(base_event)
-        largest_angle_event = min(
-            from_second_events,
-            key=lambda event: self.to_signed_point_event_squared_cosine(
-                base_end, event
-            ),
-        )
-        largest_angle_end = self.to_event_end(largest_angle_event)
-        base_orientation = self._orienteer(start, base_end, largest_angle_end)
-        return not all_same(
-            is_point_in_angle(
-                self.to_event_end(event),
-                start,
-                base_end,
-                largest_angle_end,
-                base_orientation,
-                self._orienteer,
-            )
-            for event in from_first_events
-        )
+        base_end = self.to_event_end(from_second_events[0])
+        for other_event in from_second_events[1:]:
+            other_end = self.to_event_end(other_event)
+            angle_orientation = self._orienteer(start, base_end, other_end)
+            if not all_same(
+                is_point_in_angle(
+                    self.to_event_end(event),
+                    start,
+                    base_end,
+                    other_end,
+                    angle_orientation,
+                    self._orienteer,
+                )
+                for event in from_first_events
+            ):
+                return True
+        return False
 
     def has_intersection(self, same_start_events: Sequence[Event]) -> bool:
         return not all_same(
@@ -477,27 +468,6 @@ class Operation(Generic[hints.ScalarT]):
             orienteer=self._orienteer,
         )
 
-    def to_signed_point_event_squared_cosine(
-        self, point: hints.Point[hints.ScalarT], event: Event
-    ) -> hints.ScalarT:
-        start = self.to_event_start(event)
-        end = self.to_event_end(event)
-        dot_product = dot_multiply(start, point, start, end)
-        return (
-            square(dot_product) if dot_product > 0 else -square(dot_product)
-        ) / squared_distance(start, end)
-
-
-def dot_multiply(
-    first_start: hints.Point[hints.ScalarT],
-    first_end: hints.Point[hints.ScalarT],
-    second_start: hints.Point[hints.ScalarT],
-    second_end: hints.Point[hints.ScalarT],
-) -> hints.ScalarT:
-    return (first_end.x - first_start.x) * (second_end.x - second_start.x) + (
-        first_end.y - first_start.y
-    ) * (second_end.y - second_start.y)
-
 
 def has_two_elements(iterator: Iterator[Any]) -> bool:
     return (
@@ -535,12 +505,6 @@ def is_point_in_angle(
     )
 
 
-def squared_distance(
-    start: hints.Point[hints.ScalarT], end: hints.Point[hints.ScalarT]
-) -> hints.ScalarT:
-    return square(start.x - end.x) + square(start.y - end.y)
-
-
 class RelationState(Generic[hints.ScalarT]):
     def update(
         self,
-- 
2.43.0


From a12c4b5f15645c9d0ed42b1d049d06cad443d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 12/23] fix: do not report intersection of segment with itself
 in sweep

---
 rene/_bentley_ottmann/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rene/_bentley_ottmann/base.py b/rene/_bentley_ottmann/base.py
index f29cfd1..4412733 100644
--- a/rene/_bentley_ottmann/base.py
+++ b/rene/_bentley_ottmann/base.py
@@ -111,14 +111,14 @@ def segments_ids_containing_point_to_intersections(
     /,
 ) -> Iterable[Intersection[hints.ScalarT]]:
     for first_segment_id, second_segment_id in combinations(segments_ids, 2):
+        if first_segment_id == second_segment_id:
+            # parts of the same segment divided at the point
+            continue
         first_start = events_registry.to_segment_start(first_segment_id)
         first_end = events_registry.to_segment_end(first_segment_id)
         second_start = events_registry.to_segment_start(second_segment_id)
         second_end = events_registry.to_segment_end(second_segment_id)
-        if first_segment_id == second_segment_id:
-            start, end = first_start, first_end
-            relation = Relation.EQUAL
-        elif not events_registry.are_collinear(
+        if not events_registry.are_collinear(
             first_segment_id, second_segment_id
         ):
             if (
-- 
2.43.0


From 97974e2323b47dd4c86dd3a060b2d3a0671deb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 13/23] fix: merge collinear segments by representatives of
 their groups in sweep

---
 rene/_bentley_ottmann/events_registry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rene/_bentley_ottmann/events_registry.py b/rene/_bentley_ottmann/events_registry.py
index 02401da..7fe3038 100644
--- a/rene/_bentley_ottmann/events_registry.py
+++ b/rene/_bentley_ottmann/events_registry.py
@@ -399,12 +399,12 @@ class EventsRegistry(Generic[hints.ScalarT]):
     ) -> None:
         first_segment_id = self._to_left_event_segment_id(first)
         second_segment_id = self._to_left_event_segment_id(second)
-        first_min_collinear_segment_id = self._min_collinear_segments_ids[
+        first_min_collinear_segment_id = self._to_min_collinear_segment_id(
             first_segment_id
-        ]
-        second_min_collinear_segment_id = self._min_collinear_segments_ids[
+        )
+        second_min_collinear_segment_id = self._to_min_collinear_segment_id(
             second_segment_id
-        ]
+        )
         min_collinear_segment_id = min(
             first_min_collinear_segment_id, second_min_collinear_segment_id
         )
@@ -437,11 +437,8 @@ class EventsRegistry(Generic[hints.ScalarT]):
 
     def _to_min_collinear_segment_id(self, segment_id: int, /) -> int:
         candidate = segment_id
-        iterations_count = 0
         while self._min_collinear_segments_ids[candidate] != candidate:
             candidate = self._min_collinear_segments_ids[candidate]
-            iterations_count += 1
-        assert iterations_count < 3
         return candidate
 
     def _to_opposite_event(self, event: Event, /) -> Event:
-- 
2.43.0


From 2bb452efb437fa03ebda1f56d65bcedf4deaa053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 14/23] fix: orient closing edge of contour in trapezoidation

---
 rene/_seidel/trapezoidation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 6e4fc16..32b239a 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -704,14 +704,14 @@ def _populate_from_contour(
         Edge.from_endpoints(
             first_start_index,
             last_end_index,
-            interior_to_left=is_contour_correctly_oriented,
+            interior_to_left=not is_contour_correctly_oriented,
             orienteer=orienteer,
         )
         if first_start < last_end
         else Edge.from_endpoints(
             last_end_index,
             first_start_index,
-            interior_to_left=not is_contour_correctly_oriented,
+            interior_to_left=is_contour_correctly_oriented,
             orienteer=orienteer,
         )
     )
-- 
2.43.0


From c420a287270e15a5f9b305b951d815cc8a2c14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 15/23] fix: search trapezoid after endpoint lying on inserted
 edge

---
 rene/_seidel/edge.py           |  8 ++++
 rene/_seidel/trapezoidation.py | 70 ++++++++++++++++++++++------------
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/rene/_seidel/edge.py b/rene/_seidel/edge.py
index f50e5ce..bc65ed8 100644
--- a/rene/_seidel/edge.py
+++ b/rene/_seidel/edge.py
@@ -46,6 +46,14 @@ class Edge(Generic[hints.ScalarT]):
             point,
         )
 
+    def with_left_point_index(self, left_point_index: int, /) -> Self:
+        return type(self)(
+            left_point_index,
+            self.right_point_index,
+            interior_to_left=self.interior_to_left,
+            orienteer=self._orienteer,
+        )
+
     _orienteer: Orienteer[hints.ScalarT]
 
     __slots__ = (
diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 32b239a..5d4463d 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -570,41 +570,63 @@ def _find_intersecting_trapezoids(
     /,
 ) -> list[Trapezoid]:
     edge = edges[edge_index]
-    cursor = nodes[0]
-    for _ in repeat(None, len(nodes) - 1):
-        candidate = cursor.search_edge_node(edge, edges, endpoints, nodes)
-        if candidate is cursor:
-            break
-        cursor = candidate
-    assert isinstance(cursor, Leaf), cursor
-    trapezoid = cursor.trapezoid
+    trapezoid = _find_trapezoid(edge, edges, endpoints, nodes)
     result = [trapezoid]
     right = endpoints[edge.right_point_index]
     while endpoints[trapezoid.right_point_index] < right:
-        candidate_index = (
-            (
-                trapezoid.upper_right_node_index
-                or trapezoid.lower_right_node_index
+        orientation = edge.orientation_of(
+            endpoints[trapezoid.right_point_index], endpoints
+        )
+        if orientation is Orientation.COLLINEAR:
+            # endpoint of other edges lies on the edge,
+            # so there may be any number of trapezoids starting from it
+            trapezoid = _find_trapezoid(
+                edge.with_left_point_index(trapezoid.right_point_index),
+                edges,
+                endpoints,
+                nodes,
             )
-            if (
-                edge.orientation_of(
-                    endpoints[trapezoid.right_point_index], endpoints
+        else:
+            candidate_index = (
+                (
+                    trapezoid.upper_right_node_index
+                    or trapezoid.lower_right_node_index
+                )
+                if orientation is Orientation.CLOCKWISE
+                else (
+                    trapezoid.lower_right_node_index
+                    or trapezoid.upper_right_node_index
                 )
-                is Orientation.CLOCKWISE
             )
-            else (
-                trapezoid.lower_right_node_index
-                or trapezoid.upper_right_node_index
+            assert candidate_index is not None, (
+                'Expected neighbour trapezoid, but none found.'
             )
-        )
-        assert candidate_index is not None, (
-            'Expected neighbour trapezoid, but none found.'
-        )
-        trapezoid = _get_trapezoid(candidate_index, nodes)
+            trapezoid = _get_trapezoid(candidate_index, nodes)
         result.append(trapezoid)
     return result
 
 
+def _find_trapezoid(
+    edge: Edge[hints.ScalarT],
+    edges: Sequence[Edge[hints.ScalarT]],
+    endpoints: Sequence[hints.Point[hints.ScalarT]],
+    nodes: Sequence[Node[hints.ScalarT]],
+    /,
+) -> Trapezoid:
+    """
+    Searches for the trapezoid
+    which contains start of the edge right after its left endpoint.
+    """
+    cursor = nodes[0]
+    for _ in repeat(None, len(nodes) - 1):
+        candidate = cursor.search_edge_node(edge, edges, endpoints, nodes)
+        if candidate is cursor:
+            break
+        cursor = candidate
+    assert isinstance(cursor, Leaf), cursor
+    return cursor.trapezoid
+
+
 def _get_trapezoid(
     index: int, nodes: Sequence[Node[hints.ScalarT]], /
 ) -> Trapezoid:
-- 
2.43.0


From aedf04a392237e25edb82c6d72bb611c176da536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:32 +0000
Subject: [PATCH 16/23] fix: make Delaunay triangulation without edges falsy

---
 rene/_triangulation/delaunay.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rene/_triangulation/delaunay.py b/rene/_triangulation/delaunay.py
index c67afa8..e588023 100644
--- a/rene/_triangulation/delaunay.py
+++ b/rene/_triangulation/delaunay.py
@@ -9,7 +9,7 @@ from rene._utils import deduplicate
 from rene.enums import Orientation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
-from .quad_edge import QuadEdge, to_opposite_edge
+from .quad_edge import QuadEdge, UNDEFINED_EDGE, to_opposite_edge
 
 if TYPE_CHECKING:
     from collections.abc import Sequence
@@ -98,6 +98,12 @@ class DelaunayTriangulation(Generic[hints.ScalarT]):
 
     __slots__ = '_left_side', '_mesh', '_orienteer', '_right_side'
 
+    def __bool__(self, /) -> bool:
+        result = bool(self.mesh)
+        assert result is (self.left_side != UNDEFINED_EDGE)
+        assert result is (self.right_side != UNDEFINED_EDGE)
+        return result
+
     def __new__(
         cls,
         left_side: QuadEdge,
-- 
2.43.0


From 6d58883ad7bf15bc779395f0ffc4173b25eca8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 17/23] fix: triangulate polygons regardless of orientation of
 their holes

---
 rene/_triangulation/constrained_delaunay.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 7af4340..1a24c25 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -34,7 +34,14 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
     ) -> Self:
         contours_vertices = [
             polygon.border.vertices,
-            *[hole.vertices for hole in polygon.holes],
+            *[
+                (
+                    hole.vertices
+                    if hole.orientation is Orientation.CLOCKWISE
+                    else hole.vertices[::-1]
+                )
+                for hole in polygon.holes
+            ],
         ]
         vertices = list(
             chain.from_iterable(
-- 
2.43.0


From 03c68e4e05e4967aea60b49b586c99922b4b6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 18/23] fix: constrain triangulation of polygons with vertices
 touching edges of other contours

---
 rene/_triangulation/constrained_delaunay.py | 94 ++++++++++++++++-----
 1 file changed, 72 insertions(+), 22 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index 1a24c25..cf8ae4f 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -1,7 +1,8 @@
 from __future__ import annotations
 
+from bisect import bisect_left, bisect_right
 from collections import deque
-from itertools import chain, groupby
+from itertools import chain, groupby, pairwise
 from operator import attrgetter
 from typing import Generic, TYPE_CHECKING
 
@@ -9,7 +10,10 @@ from typing_extensions import Self
 
 from rene import hints
 from rene._relating import segment_endpoints
-from rene._utils import locate_point_in_point_point_point_circle
+from rene._utils import (
+    deduplicate,
+    locate_point_in_point_point_point_circle,
+)
 from rene.enums import Location, Orientation, Relation
 
 from .mesh import Mesh, build_delaunay_triangulation, orient_point_to_edge
@@ -43,6 +47,13 @@ class ConstrainedDelaunayTriangulation(Generic[hints.ScalarT]):
                 for hole in polygon.holes
             ],
         ]
+        sorted_points = deduplicate(
+            sorted(chain.from_iterable(contours_vertices))
+        )
+        contours_vertices = [
+            split_contour_vertices(contour_vertices, sorted_points, orienteer)
+            for contour_vertices in contours_vertices
+        ]
         vertices = list(
             chain.from_iterable(
                 (
@@ -502,6 +513,26 @@ def is_edge_inside_hole(
     )
 
 
+def is_point_inside_hole_angle(
+    vertex: hints.Point[hints.ScalarT],
+    prior_point: hints.Point[hints.ScalarT],
+    next_point: hints.Point[hints.ScalarT],
+    angle_orientation: Orientation,
+    point: hints.Point[hints.ScalarT],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> bool:
+    if angle_orientation is Orientation.COLLINEAR:
+        return orienteer(prior_point, next_point, point) is (
+            Orientation.CLOCKWISE
+        )
+    return (
+        angle_orientation is Orientation.COUNTERCLOCKWISE
+    ) is angle_contains_point(
+        vertex, prior_point, next_point, angle_orientation, point, orienteer
+    )
+
+
 def is_segment_inside_hole(
     start: hints.Point[hints.ScalarT],
     end: hints.Point[hints.ScalarT],
@@ -530,26 +561,20 @@ def is_segment_inside_hole(
     end_angle_orientation = orienteer(
         end, prior_to_end_point, next_to_end_point
     )
-    return (
-        (end_angle_orientation is Orientation.COUNTERCLOCKWISE)
-        is angle_contains_point(
-            end,
-            prior_to_end_point,
-            next_to_end_point,
-            end_angle_orientation,
-            start,
-            orienteer,
-        )
-    ) and (
-        (start_angle_orientation is Orientation.COUNTERCLOCKWISE)
-        is angle_contains_point(
-            start,
-            prior_to_start_point,
-            next_to_start_point,
-            start_angle_orientation,
-            end,
-            orienteer,
-        )
+    return is_point_inside_hole_angle(
+        end,
+        prior_to_end_point,
+        next_to_end_point,
+        end_angle_orientation,
+        start,
+        orienteer,
+    ) and is_point_inside_hole_angle(
+        start,
+        prior_to_start_point,
+        next_to_start_point,
+        start_angle_orientation,
+        end,
+        orienteer,
     )
 
 
@@ -738,6 +763,31 @@ def set_constraint(
     restore_delaunay_criterion(mesh, new_edges, orienteer)
 
 
+def split_contour_vertices(
+    vertices: Sequence[hints.Point[hints.ScalarT]],
+    sorted_points: list[hints.Point[hints.ScalarT]],
+    orienteer: Orienteer[hints.ScalarT],
+    /,
+) -> list[hints.Point[hints.ScalarT]]:
+    """Splits contour edges by points lying strictly inside of them."""
+    result = []
+    for start, end in pairwise([*vertices, vertices[0]]):
+        result.append(start)
+        touching_points = [
+            point
+            for point in sorted_points[
+                bisect_right(sorted_points, min(start, end)) : bisect_left(
+                    sorted_points, max(start, end)
+                )
+            ]
+            if orienteer(start, end, point) is Orientation.COLLINEAR
+        ]
+        if start > end:
+            touching_points.reverse()
+        result.extend(touching_points)
+    return result
+
+
 def to_angle_containing_constraint_base(
     mesh: Mesh[hints.ScalarT],
     edge: QuadEdge,
-- 
2.43.0


From 186ed333c66e94b6fc9e497d8848f35755b917b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 19/23] fix: restore Delaunay criterion for all edges added by
 constraint

---
 rene/_triangulation/constrained_delaunay.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index cf8ae4f..b2b43c9 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -733,20 +733,13 @@ def restore_delaunay_criterion(
     orienteer: Orienteer[hints.ScalarT],
     /,
 ) -> None:
-    while True:
-        next_target_edges: list[QuadEdge] = []
-        edges_to_swap: list[QuadEdge] = []
+    has_swapped = True
+    while has_swapped:
+        has_swapped = False
         for edge in candidates:
-            (
-                edges_to_swap
-                if edge_should_be_swapped(mesh, edge, orienteer)
-                else next_target_edges
-            ).append(edge)
-        if not edges_to_swap:
-            break
-        for edge in edges_to_swap:
-            mesh.swap_diagonal(edge)
-        candidates = next_target_edges
+            if edge_should_be_swapped(mesh, edge, orienteer):
+                mesh.swap_diagonal(edge)
+                has_swapped = True
 
 
 def set_constraint(
-- 
2.43.0


From 6551a1c882ba89c95ca80661351e2c8624d7fe7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 20/23] fix: triangulate polygons with holes sharing several
 points

---
 rene/_triangulation/constrained_delaunay.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/rene/_triangulation/constrained_delaunay.py b/rene/_triangulation/constrained_delaunay.py
index b2b43c9..37a8b99 100644
--- a/rene/_triangulation/constrained_delaunay.py
+++ b/rene/_triangulation/constrained_delaunay.py
@@ -507,9 +507,16 @@ def is_edge_inside_hole(
         polygon_vertices_positions[end_index],
         with_border=False,
     )
-    assert len(common_holes_positions) <= 1
-    return bool(common_holes_positions) and is_segment_inside_hole(
-        start, end, *common_holes_positions[0], contours_vertices, orienteer
+    return any(
+        is_segment_inside_hole(
+            start,
+            end,
+            start_position,
+            end_position,
+            contours_vertices,
+            orienteer,
+        )
+        for start_position, end_position in common_holes_positions
     )
 
 
-- 
2.43.0


From 90cda4919d3fb2077800f5f1d3bc6d579d3a5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 21/23] fix: do not limit depth of trapezoidation by recursion

---
 rene/_seidel/leaf.py           |  4 ++--
 rene/_seidel/node.py           |  9 ++++----
 rene/_seidel/trapezoidation.py | 40 +++++++++++++++++++++++++++-------
 rene/_seidel/x_node.py         | 18 +++++----------
 rene/_seidel/y_node.py         | 18 +++++----------
 5 files changed, 49 insertions(+), 40 deletions(-)

diff --git a/rene/_seidel/leaf.py b/rene/_seidel/leaf.py
index 4fec80f..399880a 100644
--- a/rene/_seidel/leaf.py
+++ b/rene/_seidel/leaf.py
@@ -38,8 +38,8 @@ class Leaf(Node[hints.ScalarT]):
         return self
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return 0
+    def to_children_indices(self, /) -> Sequence[int]:
+        return ()
 
     trapezoid: Trapezoid
 
diff --git a/rene/_seidel/node.py b/rene/_seidel/node.py
index 9f8eae4..a7a4297 100644
--- a/rene/_seidel/node.py
+++ b/rene/_seidel/node.py
@@ -21,9 +21,10 @@ class Node(ABC, Generic[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         """
-        Finds location of given point relative to the contour.
+        Finds location of given point relative to the contour
+        or the next node to search it in.
         """
 
     @abstractmethod
@@ -41,7 +42,7 @@ class Node(ABC, Generic[hints.ScalarT]):
         """
 
     @abstractmethod
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
+    def to_children_indices(self, /) -> Sequence[int]:
         """
-        Returns height of the node.
+        Returns indices of the child nodes.
         """
diff --git a/rene/_seidel/trapezoidation.py b/rene/_seidel/trapezoidation.py
index 5d4463d..477e323 100644
--- a/rene/_seidel/trapezoidation.py
+++ b/rene/_seidel/trapezoidation.py
@@ -87,12 +87,39 @@ class Trapezoidation(Generic[hints.ScalarT]):
 
     @property
     def height(self, /) -> int:
-        return self._root.to_height(self._nodes)
+        nodes = self._nodes
+        heights: dict[int, int] = {}
+        stack = [0]
+        while stack:
+            node_index = stack[-1]
+            children_indices = nodes[node_index].to_children_indices()
+            pending_indices = [
+                child_index
+                for child_index in children_indices
+                if child_index not in heights
+            ]
+            if pending_indices:
+                stack.extend(pending_indices)
+            else:
+                heights[node_index] = (
+                    max(
+                        heights[child_index]
+                        for child_index in children_indices
+                    )
+                    + 1
+                    if children_indices
+                    else 0
+                )
+                stack.pop()
+        return heights[0]
 
     def locate(self, point: hints.Point[hints.ScalarT], /) -> Location:
-        return self._root.locate(
-            point, self._edges, self._endpoints, self._nodes
-        )
+        result: Location | Node[hints.ScalarT] = self._root
+        while not isinstance(result, Location):
+            result = result.locate(
+                point, self._edges, self._endpoints, self._nodes
+            )
+        return result
 
     @classmethod
     def _from_box(
@@ -138,10 +165,7 @@ class Trapezoidation(Generic[hints.ScalarT]):
         return self
 
     def __contains__(self, point: hints.Point[hints.ScalarT]) -> bool:
-        return (
-            self._root.locate(point, self._edges, self._endpoints, self._nodes)
-            is not Location.EXTERIOR
-        )
+        return self.locate(point) is not Location.EXTERIOR
 
 
 def _add_edge(
diff --git a/rene/_seidel/x_node.py b/rene/_seidel/x_node.py
index f7985c0..9a17719 100644
--- a/rene/_seidel/x_node.py
+++ b/rene/_seidel/x_node.py
@@ -22,14 +22,12 @@ class XNode(Node[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         return (
-            nodes[self.left_node_index].locate(point, edges, endpoints, nodes)
+            nodes[self.left_node_index]
             if point < endpoints[self.point_index]
             else (
-                nodes[self.right_node_index].locate(
-                    point, edges, endpoints, nodes
-                )
+                nodes[self.right_node_index]
                 if endpoints[self.point_index] < point
                 else Location.BOUNDARY
             )
@@ -56,14 +54,8 @@ class XNode(Node[hints.ScalarT]):
         ]
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return (
-            max(
-                nodes[self.left_node_index].to_height(nodes),
-                nodes[self.right_node_index].to_height(nodes),
-            )
-            + 1
-        )
+    def to_children_indices(self, /) -> Sequence[int]:
+        return self.left_node_index, self.right_node_index
 
     __slots__ = 'left_node_index', 'point_index', 'right_node_index'
 
diff --git a/rene/_seidel/y_node.py b/rene/_seidel/y_node.py
index 7fdd0a6..e7f8e78 100644
--- a/rene/_seidel/y_node.py
+++ b/rene/_seidel/y_node.py
@@ -22,17 +22,15 @@ class YNode(Node[hints.ScalarT]):
         endpoints: Sequence[hints.Point[hints.ScalarT]],
         nodes: Sequence[Node[hints.ScalarT]],
         /,
-    ) -> Location:
+    ) -> Location | Node[hints.ScalarT]:
         point_orientation = edges[self.edge_index].orientation_of(
             point, endpoints
         )
         return (
-            nodes[self.above_node_index].locate(point, edges, endpoints, nodes)
+            nodes[self.above_node_index]
             if point_orientation is Orientation.COUNTERCLOCKWISE
             else (
-                nodes[self.below_node_index].locate(
-                    point, edges, endpoints, nodes
-                )
+                nodes[self.below_node_index]
                 if point_orientation is Orientation.CLOCKWISE
                 else Location.BOUNDARY
             )
@@ -56,14 +54,8 @@ class YNode(Node[hints.ScalarT]):
         ]
 
     @override
-    def to_height(self, nodes: Sequence[Node[hints.ScalarT]], /) -> int:
-        return (
-            max(
-                nodes[self.below_node_index].to_height(nodes),
-                nodes[self.above_node_index].to_height(nodes),
-            )
-            + 1
-        )
+    def to_children_indices(self, /) -> Sequence[int]:
+        return self.below_node_index, self.above_node_index
 
     __slots__ = 'above_node_index', 'below_node_index', 'edge_index'
 
-- 
2.43.0


From 9e3d9210fb7eda6880433e91375cf55129d147f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 22/23] fix: relate multisegmental lying between segments of
 the other

---
 rene/_relating/multisegmental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index 3153581..a54c202 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -224,7 +224,8 @@ def relate_to_multisegmental(
             and second_boxes[segment_id].min_x <= min_max_x
         )
     ]
-    assert second_intersecting_segments
+    if not second_intersecting_segments:
+        return Relation.DISJOINT
     return linear.Operation.from_segments_iterables(
         first_intersecting_segments,
         second_intersecting_segments,
-- 
2.43.0


From 83bcafcc461ca2446ef3d6622a2e9a354c92267b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 23/23] fix: relate multipolygon and linear separated along x
 axis

---
 rene/_relating/multipolygon.py   | 6 ++++--
 rene/_relating/multisegmental.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/rene/_relating/multipolygon.py b/rene/_relating/multipolygon.py
index 3f9f4c7..314dac3 100644
--- a/rene/_relating/multipolygon.py
+++ b/rene/_relating/multipolygon.py
@@ -266,13 +266,15 @@ def relate_to_multisegmental(
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     intersecting_segments = [
         multisegmental_segments[segment_id]
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     return mixed.ShapedLinearOperation.from_segments_iterables(
         chain.from_iterable(
             polygon_to_segments(polygon, multisegmental_bounding_box)
diff --git a/rene/_relating/multisegmental.py b/rene/_relating/multisegmental.py
index a54c202..57469bc 100644
--- a/rene/_relating/multisegmental.py
+++ b/rene/_relating/multisegmental.py
@@ -92,13 +92,15 @@ def relate_to_multipolygon(
         for segment_id in intersecting_segments_ids
         if multisegmental_boxes[segment_id].min_x <= min_max_x
     ]
-    assert intersecting_segments
+    if not intersecting_segments:
+        return Relation.DISJOINT
     intersecting_polygons = [
         multipolygon_polygons[polygon_id]
         for polygon_id in intersecting_polygons_ids
         if multipolygon_boxes[polygon_id].min_x <= min_max_x
     ]
-    assert intersecting_polygons
+    if not intersecting_polygons:
+        return Relation.DISJOINT
     return mixed.LinearShapedOperation.from_segments_iterables(
         intersecting_segments,
         chain.from_iterable(
-- 
2.43.0

