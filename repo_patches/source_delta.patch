From f4cb291b80816d122f9c437a9e1072dfebb76336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:58 +0000
Subject: [PATCH 01/39] fix: discard gauge and meter samples whose value is not
 a number

The malformed message was logged and then processed all the same, with
an unbound value: process() raised UnboundLocalError.
---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 425a0b9..7655c03 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -194,7 +194,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_gauge_metric(key, value)
 
@@ -210,7 +210,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_meter_metric(key, value)
 
-- 
2.43.0


From 8e9dc666aa0ce799d04ff350fdad9a12d21e3572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 02/39] fix: discard counter samples whose sample rate is not a
 positive number

A rate of 0 raised ZeroDivisionError and one such as '1.2.3' raised
ValueError out of process(), leaving a spurious counter behind.  The
exponent of a small rate ('@1e-05', which is how the client writes
0.00001) was ignored, so the sample was scaled by the wrong factor.
---
 txstatsd/server/processor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 7655c03..72d6ffb 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -32,7 +32,7 @@ from txstatsd.metrics.metermetric import MeterMetricReporter
 SPACES = re.compile("\s+")
 SLASHES = re.compile("\/+")
 NON_ALNUM = re.compile("[^a-zA-Z_\-0-9\.]")
-RATE = re.compile("^@([\d\.]+)")
+RATE = re.compile("^@([\d\.]+(?:[eE][-+]?\d+)?)$")
 
 
 def normalize_key(key):
@@ -177,7 +177,12 @@ class MessageProcessor(BaseMessageProcessor):
             match = RATE.match(composite[2])
             if match is None:
                 return self.fail(message)
-            rate = match.group(1)
+            try:
+                rate = float(match.group(1))
+            except ValueError:
+                return self.fail(message)
+            if not rate > 0:
+                return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
 
-- 
2.43.0


From de817d35d67b886e92ac7f165840e8f1e1dfe742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 03/39] fix: treat samples that are not finite numbers as
 malformed

'nan' and 'inf' went through float() and were aggregated: one such
counter sample made every later flush of a ConfigurableMessageProcessor
raise, and one such timer sample spoiled the timer's statistics.
---
 txstatsd/server/configurableprocessor.py |  4 ++--
 txstatsd/server/processor.py             | 23 ++++++++++++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 85f8bb1..92fda92 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -25,7 +25,7 @@ from txstatsd.metrics.countermetric import CounterMetricReporter
 from txstatsd.metrics.gaugemetric import GaugeMetricReporter
 from txstatsd.metrics.metermetric import MeterMetricReporter
 from txstatsd.metrics.timermetric import TimerMetricReporter
-from txstatsd.server.processor import MessageProcessor
+from txstatsd.server.processor import MessageProcessor, parse_value
 
 
 class ConfigurableMessageProcessor(MessageProcessor):
@@ -68,7 +68,7 @@ class ConfigurableMessageProcessor(MessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_value(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 72d6ffb..856521f 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -20,6 +20,7 @@
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 from collections import deque
+import math
 import re
 import time
 import logging
@@ -46,6 +47,18 @@ def normalize_key(key):
     return key
 
 
+def parse_value(text):
+    """
+    Convert C{text} to a float.
+
+    @raise ValueError: If C{text} is not a finite number.
+    """
+    value = float(text)
+    if math.isnan(value) or math.isinf(value):
+        raise ValueError("not a finite number: %r" % (text,))
+    return value
+
+
 class BaseMessageProcessor(object):
 
     def process(self, message):
@@ -156,7 +169,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_timer_metric(self, key, duration, message):
         try:
-            duration = float(duration)
+            duration = parse_value(duration)
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -169,7 +182,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = parse_value(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
         rate = 1
@@ -178,7 +191,7 @@ class MessageProcessor(BaseMessageProcessor):
             if match is None:
                 return self.fail(message)
             try:
-                rate = float(match.group(1))
+                rate = parse_value(match.group(1))
             except ValueError:
                 return self.fail(message)
             if not rate > 0:
@@ -197,7 +210,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_value(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -213,7 +226,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = parse_value(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
-- 
2.43.0


From c6eab3b2e36f225e103c62eba4585eef3ac0f42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 04/39] fix: honour flush intervals that are not whole seconds

The interval in milliseconds was divided by 1000 as an integer: 500
made the flush raise ZeroDivisionError and its timer fire without
pause, and 1500 flushed every second and published wrong rates.
---
 txstatsd/server/processor.py | 5 ++---
 txstatsd/service.py          | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 856521f..ab955b7 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -246,7 +246,6 @@ class MessageProcessor(BaseMessageProcessor):
         """
         per_metric = {}
         num_stats = 0
-        interval = interval / 1000
         timestamp = int(self.time_function())
 
         start = self.time_function()
@@ -291,7 +290,7 @@ class MessageProcessor(BaseMessageProcessor):
 
         start = self.time_function()
         events = 0
-        for metrics in self.flush_plugin_metrics(interval, timestamp):
+        for metrics in self.flush_plugin_metrics(interval / 1000.0, timestamp):
             for metric in metrics:
                 yield metric
             events += 1
@@ -308,7 +307,7 @@ class MessageProcessor(BaseMessageProcessor):
         for key, count in self.counter_metrics.iteritems():
             self.counter_metrics[key] = 0
 
-            value = count / interval
+            value = count * 1000 / interval
             yield ((self.stats_prefix + key, value, timestamp),
                    (self.count_prefix + key, count, timestamp))
 
diff --git a/txstatsd/service.py b/txstatsd/service.py
index db2e237..581d4d2 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -233,7 +233,7 @@ class StatsDService(Service):
         self.coop.coiterate(doWork())
 
     def startService(self):
-        self.flush_task.start(self.flush_interval / 1000, False)
+        self.flush_task.start(self.flush_interval / 1000.0, False)
 
     def stopService(self):
         if self.flush_task.running:
@@ -311,7 +311,7 @@ def createService(options, reactor=None):
     reporting.setServiceParent(root_service)
 
     reporting.schedule(report_client_manager_stats,
-                       options["flush-interval"] / 1000,
+                       options["flush-interval"] / 1000.0,
                        metrics.gauge)
 
     if options["report"] is not None:
-- 
2.43.0


From 9e7e3013535fa9f43e9453990a4a3fc380a3b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:24 +0000
Subject: [PATCH 05/39] fix: keep one reading per gauge

Every reading ever received stayed queued and was sent again on every
flush, and a reading that arrived while a flush was under way made the
flush fail with 'deque changed size during iteration'.
---
 txstatsd/server/processor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index ab955b7..b42df80 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -113,6 +113,7 @@ class MessageProcessor(BaseMessageProcessor):
         self.timer_metrics = {}
         self.counter_metrics = {}
         self.gauge_metrics = deque()
+        self.gauges_by_key = {}
         self.meter_metrics = {}
 
         self.plugins = {}
@@ -217,8 +218,12 @@ class MessageProcessor(BaseMessageProcessor):
         self.compose_gauge_metric(key, value)
 
     def compose_gauge_metric(self, key, value):
-        metric = [value, key]
-        self.gauge_metrics.append(metric)
+        metric = self.gauges_by_key.get(key)
+        if metric is None:
+            metric = self.gauges_by_key[key] = [value, key]
+            self.gauge_metrics.append(metric)
+        else:
+            metric[0] = value
 
     def process_meter_metric(self, key, composite, message):
         values = composite.split(":")
@@ -341,7 +346,7 @@ class MessageProcessor(BaseMessageProcessor):
                              for item, value in items.iteritems())
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics:
+        for metric in list(self.gauge_metrics):
             value = metric[0]
             key = metric[1]
 
-- 
2.43.0


From b28d360385414aa6c84d9f63f066670d4805d5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 06/39] fix: let new metric names arrive while a flush is under
 way

The flush is a generator that is consumed over several reactor turns;
a name first seen meanwhile changed the dictionary being iterated,
which aborts the flush ('dictionary changed size during iteration',
on CPython) and loses the rest of it.
---
 txstatsd/server/configurableprocessor.py |  6 +++---
 txstatsd/server/processor.py             | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 92fda92..5c76cf3 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -94,16 +94,16 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.meter_metrics[key].mark(value)
 
     def flush_counter_metrics(self, interval, timestamp):
-        for metric in self.counter_metrics.itervalues():
+        for metric in list(self.counter_metrics.values()):
             messages = metric.report(timestamp)
             yield messages
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics.itervalues():
+        for metric in list(self.gauge_metrics.values()):
             messages = metric.report(timestamp)
             yield messages
 
     def flush_timer_metrics(self, percent, timestamp):
-        for metric in self.timer_metrics.itervalues():
+        for metric in list(self.timer_metrics.values()):
             messages = metric.report(timestamp)
             yield messages
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index b42df80..4096977 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -309,7 +309,8 @@ class MessageProcessor(BaseMessageProcessor):
                 yield metric
 
     def flush_counter_metrics(self, interval, timestamp):
-        for key, count in self.counter_metrics.iteritems():
+        for key in list(self.counter_metrics):
+            count = self.counter_metrics[key]
             self.counter_metrics[key] = 0
 
             value = count * 1000 / interval
@@ -318,7 +319,8 @@ class MessageProcessor(BaseMessageProcessor):
 
     def flush_timer_metrics(self, percent, timestamp):
         threshold_value = ((100 - percent) / 100.0)
-        for key, timers in self.timer_metrics.iteritems():
+        for key in list(self.timer_metrics):
+            timers = self.timer_metrics[key]
             count = len(timers)
             if count > 0:
                 self.timer_metrics[key] = []
@@ -353,12 +355,12 @@ class MessageProcessor(BaseMessageProcessor):
             yield ((self.gauge_prefix + key + ".value", value, timestamp),)
 
     def flush_meter_metrics(self, timestamp):
-        for metric in self.meter_metrics.itervalues():
+        for metric in list(self.meter_metrics.values()):
             messages = metric.report(timestamp)
             yield messages
 
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.itervalues():
+        for metric in list(self.plugin_metrics.values()):
             messages = metric.flush(interval, timestamp)
             yield messages
 
-- 
2.43.0


From aae89e626de62da04074dcf91ee1c323a574c29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 07/39] fix: count the messages received while the summary is
 being flushed

The receive counts were cleared when the last of them had been sent, so
messages processed in the meantime were never counted.
---
 txstatsd/server/processor.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 4096977..38f6551 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -380,17 +380,18 @@ class MessageProcessor(BaseMessageProcessor):
                     (value, name, duration))
             self.last_flush_duration += duration
 
+        # Messages processed from here on are accounted for in the next flush.
+        process_timings, self.process_timings = self.process_timings, {}
+        by_type, self.by_type = self.by_type, {}
+
         self.last_process_duration = 0
-        for metric_type, duration in self.process_timings.iteritems():
+        for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
-                    metric_type, self.by_type[metric_type], timestamp),
+                    metric_type, by_type[metric_type], timestamp),
                    (self.internal_metrics_prefix +
                     "receive.%s.duration" %
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
-                    (self.by_type[metric_type], metric_type, duration))
+                    (by_type[metric_type], metric_type, duration))
             self.last_process_duration += duration
-
-        self.process_timings.clear()
-        self.by_type.clear()
-- 
2.43.0


From a30c560972f83ae41f0fee029bad838258595b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 08/39] fix: keep at least one timer sample below the threshold

A small percentage of a few samples rounded down to none of them, and
the flush raised IndexError.
---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 38f6551..9c9bd9c 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -334,7 +334,7 @@ class MessageProcessor(BaseMessageProcessor):
                 threshold_upper = upper
 
                 if count > 1:
-                    index = count - int(round(threshold_value * count))
+                    index = max(1, count - int(round(threshold_value * count)))
                     timers = timers[:index]
                     threshold_upper = timers[-1]
                     mean = sum(timers) / index
-- 
2.43.0


From a465c092d54f35373c5c087bd5411f9fb7d9ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 09/39] fix: never report a rate over a negative time span

Flushes are stamped with whole seconds, and meters and timers are
created at fractional ones, so the first flush can be stamped earlier
than the metric it reports: its rate came out negative.
---
 txstatsd/metrics/metermetric.py | 2 +-
 txstatsd/metrics/timermetric.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/metermetric.py b/txstatsd/metrics/metermetric.py
index 990943e..35f04da 100644
--- a/txstatsd/metrics/metermetric.py
+++ b/txstatsd/metrics/metermetric.py
@@ -87,7 +87,7 @@ class MeterMetricReporter(object):
         """
         poll_prev, self.poll_time = self.poll_time, timestamp
 
-        if self.poll_time == poll_prev:
+        if self.poll_time <= poll_prev:
             return list()
 
         rate = float(self.value) / (self.poll_time - poll_prev)
diff --git a/txstatsd/metrics/timermetric.py b/txstatsd/metrics/timermetric.py
index cfad2f0..6d2e950 100644
--- a/txstatsd/metrics/timermetric.py
+++ b/txstatsd/metrics/timermetric.py
@@ -86,7 +86,7 @@ class TimerMetricReporter(object):
     def rate(self, timestamp):
         """The number of values seen since last clear."""
         dt = (timestamp - self.last_time)
-        if dt == 0:
+        if dt <= 0:
             return 0
         return self.histogram.count / dt
 
-- 
2.43.0


From 3fb047e43d43c5b97db4e0bb09d32a1e8b5d9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 10/39] fix: build the histogram of a sample whose values are
 all equal

It divided by their range, which is zero, so /metrics/<timer> answered
with an internal server error until a different duration came in.
---
 txstatsd/metrics/histogrammetric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 11cd1b1..3f68b77 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -182,6 +182,10 @@ class HistogramMetricReporter(object):
         min_value = float(min(values))
         value_range = max_value - min_value
 
+        if value_range == 0:
+            scores[0] = float(len(values))
+            return scores
+
         for value in values:
             pos = int(((value - min_value) / value_range) * n_bins)
             if pos == n_bins:
-- 
2.43.0


From b353de8cfa172ec31820b8a04ded74ecff5e63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 11/39] fix: list the gauges of a ConfigurableMessageProcessor

Its gauges are kept by name and get_metric_names() iterated them as if
they were the queue of its base class, so it raised ValueError (or
listed letters) and /list_metrics answered with a server error.
---
 txstatsd/server/configurableprocessor.py | 3 +++
 txstatsd/server/processor.py             | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 5c76cf3..6dcc58c 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -58,6 +58,9 @@ class ConfigurableMessageProcessor(MessageProcessor):
     def get_message_prefix(self, kind):
         return self.message_prefix
 
+    def get_gauge_names(self):
+        return self.gauge_metrics.keys()
+
     def compose_timer_metric(self, key, duration):
         if not key in self.timer_metrics:
             metric = TimerMetricReporter(
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 9c9bd9c..591fc7e 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -128,11 +128,15 @@ class MessageProcessor(BaseMessageProcessor):
         metrics = set()
         metrics.update(self.timer_metrics.keys())
         metrics.update(self.counter_metrics.keys())
-        metrics.update(v for k, v in self.gauge_metrics)
+        metrics.update(self.get_gauge_names())
         metrics.update(self.meter_metrics.keys())
         metrics.update(self.plugin_metrics.keys())
         return list(metrics)
 
+    def get_gauge_names(self):
+        """Return the names of all seen gauges."""
+        return [key for value, key in self.gauge_metrics]
+
     def process_message(self, message, metric_type, key, fields):
         """
         Process a single entry, adding it to either C{counters}, C{timers},
-- 
2.43.0


From 0b2b0bb3c04e7de2586453b0d15a0d6736b455a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:42 +0000
Subject: [PATCH 12/39] fix: discard samples that a metric plugin cannot parse

A malformed SLI sample raised ValueError out of process(), and if it
was the first one for its name, a metric nobody reported was published
from then on.
---
 txstatsd/server/processor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 591fc7e..15c9f4d 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -164,13 +164,17 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
-        if not key in self.plugin_metrics:
+        metric = self.plugin_metrics.get(key)
+        if metric is None:
             factory = self.plugins[metric_type]
             metric = factory.build_metric(
                 self.get_message_prefix(factory.name),
                 name=key, wall_time_func=self.time_function)
-            self.plugin_metrics[key] = metric
-        self.plugin_metrics[key].process(items)
+        try:
+            metric.process(items)
+        except (TypeError, ValueError):
+            return self.fail(message)
+        self.plugin_metrics[key] = metric
 
     def process_timer_metric(self, key, duration, message):
         try:
-- 
2.43.0


From cc9966a9fc44b644b287476197767b7ffab9a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:59 +0000
Subject: [PATCH 13/39] fix: redirect messages with the metric type that rules
 gave them

set_metric_type only changed the type used for local processing: the
message sent on by redirect_udp and redirect_tcp kept the original one.
---
 txstatsd/server/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 15c9f4d..7ff4567 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -80,7 +80,7 @@ class BaseMessageProcessor(object):
         return self.process_message(message, metric_type, key, fields)
 
     def rebuild_message(self, metric_type, key, fields):
-        return key + ":" + "|".join(fields)
+        return key + ":" + "|".join([fields[0], metric_type] + fields[2:])
 
     def fail(self, message):
         """Log and discard malformed message."""
-- 
2.43.0


From 89ff6c9e9b9aecf740fac1315b43b4af7bd8304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:59 +0000
Subject: [PATCH 14/39] fix: pass messages on when there is no service to
 redirect with

The target returned True where a sequence of messages is expected, so
each message processed by such a rule raised TypeError.
---
 txstatsd/server/router.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 3cd7afb..0143fad 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -260,7 +260,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_udp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
@@ -281,7 +281,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_tcp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
-- 
2.43.0


From 6d505cac20000560c026484f8c5f02f7cbd2765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:59 +0000
Subject: [PATCH 15/39] fix: resume the TCP redirect when its transport asks
 for more

resumeProducing() called the log module, which raises TypeError before
the redirect was marked as resumed: after the first time the send
buffer filled up, every message was dropped until a reconnection.
---
 txstatsd/server/router.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 0143fad..0dde45f 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -140,9 +140,10 @@ class TCPRedirectProtocol(Protocol):
     def resumeProducing(self):
         """We can write to the transport again. Yay!."""
         time_now = int(time.time())
-        log("Resumed TCP redirect. "
-            "Dropped %s messages during %s seconds ",
-                self.dropped, time_now - self.last_paused)
+        if self.last_paused is not None:
+            log.msg("Resumed TCP redirect. "
+                    "Dropped %s messages during %s seconds" %
+                    (self.dropped, time_now - self.last_paused))
         self.paused = False
         self.dropped = 0
         self.last_paused = None
-- 
2.43.0


From 9282011a6a23ff74a3a2dad9a8a7a6ed3bd86ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 16/39] fix: call the connect callback of a client only once

A client created with an IP address was resolved by its initializer and
then once more by create(), which called the callback twice: a router
with 'redirect_udp <ip> <port>' raised AlreadyCalledError inside the
resolver's callbacks.
---
 txstatsd/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index dfe1be2..b6435d0 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -173,8 +173,9 @@ class TwistedStatsDClient(object):
             resolver_errback = log.err
 
         instance.resolve_later = reactor.resolve(host)
-        instance.resolve_later.addCallbacks(instance.host_resolved,
-                                            resolver_errback)
+        if instance.transport_gateway is None:
+            instance.resolve_later.addCallbacks(instance.host_resolved,
+                                                resolver_errback)
 
         return instance
 
-- 
2.43.0


From e037541e1f5da9b6f06fa30baa0c6dbe7c25394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 17/39] fix: do not mistake an error of the write callback for
 one of the write

A callback that raised TypeError, OverflowError or socket.error was
called a second time, with None, as if the datagram had not been sent.
---
 txstatsd/protocol.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index b6435d0..4f890d1 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -104,11 +104,10 @@ class TransportGateway(object):
         """
         try:
             bytes_sent = self.transport.write(data, (self.host, self.port))
-            if callback is not None:
-                callback(bytes_sent)
         except (OverflowError, TypeError, socket.error, socket.gaierror):
-            if callback is not None:
-                callback(None)
+            bytes_sent = None
+        if callback is not None:
+            callback(bytes_sent)
 
 
 class TwistedStatsDClient(object):
-- 
2.43.0


From b976a5e78ca2a04274236c5e1e4f0c8e6d69be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:26 +0000
Subject: [PATCH 18/39] fix: do not lose messages written by threads while the
 host resolves

A thread that had just found the host unresolved could queue its
message after the reactor thread had flushed the queue, where nothing
would ever send it, and two threads appending while the queue was
swapped could lose one or have it sent out of order.
---
 txstatsd/protocol.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 4f890d1..2d56068 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -20,6 +20,7 @@
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 import socket
+import threading
 
 from twisted.internet import abstract
 from twisted.internet.protocol import DatagramProtocol
@@ -135,6 +136,9 @@ class TwistedStatsDClient(object):
         self.connect_callback = connect_callback
         self.disconnect_callback = disconnect_callback
         self.data_queue = DataQueue()
+        # write() can be called from any thread: whether a message is queued
+        # or sent has to be decided while nobody changes that.
+        self._lock = threading.RLock()
 
         self.transport = None
         self.transport_gateway = None
@@ -180,17 +184,19 @@ class TwistedStatsDClient(object):
 
     def connect(self, transport=None):
         """Connect to the StatsD server."""
-        if transport is not None:
-            self.transport = transport
-            if self.transport_gateway is not None:
-                self.transport_gateway.transport = transport
-        self._flush_items()
+        with self._lock:
+            if transport is not None:
+                self.transport = transport
+                if self.transport_gateway is not None:
+                    self.transport_gateway.transport = transport
+            self._flush_items()
 
     def disconnect(self):
         """Disconnect from the StatsD server."""
         if self.disconnect_callback is not None:
             self.disconnect_callback()
-        self.transport = None
+        with self._lock:
+            self.transport = None
 
     def write(self, data, callback=None):
         """Send the metric to the StatsD server.
@@ -200,21 +206,23 @@ class TwistedStatsDClient(object):
             B{Note}: The C{callback} will be called in the C{reactor}
             thread, and not in the thread of the original caller.
         """
-        if self.transport_gateway is not None and self.transport is not None:
-            return self.transport_gateway.write(data, callback)
-        return self.data_queue.write(data, callback)
+        with self._lock:
+            if (self.transport_gateway is not None and
+                self.transport is not None):
+                return self.transport_gateway.write(data, callback)
+            return self.data_queue.write(data, callback)
 
     def host_resolved(self, ip):
         """Callback used when the host is resolved to an IP address."""
-        self.host = ip
-        self.transport_gateway = TransportGateway(self.transport, self.reactor,
-                                                  self.host, self.port)
+        with self._lock:
+            self.host = ip
+            self.transport_gateway = TransportGateway(
+                self.transport, self.reactor, self.host, self.port)
+            self._flush_items()
 
         if self.connect_callback is not None:
             self.connect_callback()
 
-        self._flush_items()
-
     def _flush_items(self):
         """Flush all items (data, callback) from the DataQueue to the
         TransportGateway."""
-- 
2.43.0


From a2608ed52f6da07567904e28fef209ba7459e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 19/39] fix: report each sample with its own metric type and
 sample rate

The metrics were cached by name alone: reporting a second kind of
metric under a name was sent as the first kind or raised
AttributeError, and the sample rate of the first call was used for all
the later ones.
---
 txstatsd/metrics/extendedmetrics.py | 24 +++--------
 txstatsd/metrics/metrics.py         | 66 +++++++++++------------------
 2 files changed, 31 insertions(+), 59 deletions(-)

diff --git a/txstatsd/metrics/extendedmetrics.py b/txstatsd/metrics/extendedmetrics.py
index 3d4d430..2dab89a 100644
--- a/txstatsd/metrics/extendedmetrics.py
+++ b/txstatsd/metrics/extendedmetrics.py
@@ -43,32 +43,20 @@ class ExtendedMetrics(Metrics):
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            metric = CounterMetric(self.connection,
-                                   name,
-                                   sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].increment(value)
+        metric = self._get_metric(CounterMetric, name, sample_rate)
+        metric.increment(value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            metric = CounterMetric(self.connection,
-                                   name,
-                                   sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].decrement(value)
+        metric = self._get_metric(CounterMetric, name, sample_rate)
+        metric.decrement(value)
 
     def timing(self, name, duration=None, sample_rate=1):
         """Report this sample performed in duration seconds."""
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            metric = TimerMetric(self.connection,
-                                 name,
-                                 sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].mark(duration)
+        metric = self._get_metric(TimerMetric, name, sample_rate)
+        metric.mark(duration)
 
diff --git a/txstatsd/metrics/metrics.py b/txstatsd/metrics/metrics.py
index 66740e4..012385a 100644
--- a/txstatsd/metrics/metrics.py
+++ b/txstatsd/metrics/metrics.py
@@ -60,12 +60,12 @@ class Metrics(object):
         Used for server side plugins without client support.
         """
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        if not (metric_type, name) in self._metrics:
             metric = GenericMetric(self.connection,
                                         metric_type,
                                         name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(value, extra)
+            self._metrics[metric_type, name] = metric
+        self._metrics[metric_type, name].mark(value, extra)
 
     def sli(self, name, duration, size=None):
         """Report a service level metric.
@@ -87,42 +87,24 @@ class Metrics(object):
     def gauge(self, name, value, sample_rate=1):
         """Report an instantaneous reading of a particular value."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            gauge_metric = GaugeMetric(self.connection,
-                                       name,
-                                       sample_rate)
-            self._metrics[name] = gauge_metric
-        self._metrics[name].mark(value)
+        self._get_metric(GaugeMetric, name, sample_rate).mark(value)
 
     def meter(self, name, value=1, sample_rate=1):
         """Mark the occurrence of a given number of events."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            meter_metric = MeterMetric(self.connection,
-                                       name,
-                                       sample_rate)
-            self._metrics[name] = meter_metric
-        self._metrics[name].mark(value)
+        self._get_metric(MeterMetric, name, sample_rate).mark(value)
 
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            metric = Metric(self.connection,
-                            name,
-                            sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % value)
+        metric = self._get_metric(Metric, name, sample_rate)
+        metric.send("%s|c" % value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            metric = Metric(self.connection,
-                            name,
-                            sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % -value)
+        metric = self._get_metric(Metric, name, sample_rate)
+        metric.send("%s|c" % -value)
 
     def reset_timing(self):
         """Resets the duration timer for the next call to timing()"""
@@ -142,27 +124,29 @@ class Metrics(object):
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            metric = Metric(self.connection,
-                            name,
-                            sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|ms" % (duration * 1000))
+        metric = self._get_metric(Metric, name, sample_rate)
+        metric.send("%s|ms" % (duration * 1000))
 
     def distinct(self, name, item):
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
-            metric = DistinctMetric(self.connection, name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(item)
+        self._get_metric(DistinctMetric, name).mark(item)
 
     def clear(self, name):
         """Allow the metric to re-initialize its internal state."""
         name = self.fully_qualify_name(name)
-        if name in self._metrics:
-            metric = self._metrics[name]
-            if getattr(metric, 'clear', None) is not None:
-                metric.clear()
+        for kind, metric_name in list(self._metrics):
+            if metric_name == name:
+                metric = self._metrics[kind, metric_name]
+                if getattr(metric, 'clear', None) is not None:
+                    metric.clear()
+
+    def _get_metric(self, factory, name, sample_rate=1):
+        """Return the metric called C{name} of the kind built by C{factory}."""
+        if not (factory, name) in self._metrics:
+            self._metrics[factory, name] = factory(self.connection, name)
+        metric = self._metrics[factory, name]
+        metric.sample_rate = sample_rate
+        return metric
 
     def fully_qualify_name(self, name):
         """Compose the fully-qualified name: namespace and name."""
-- 
2.43.0


From 5a25682379fb9bff70d3dd59bdfe50d394b162fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 20/39] fix: stop every reporting task even if one has failed

A task scheduled without a report function stops running when its
function raises; stopping it again raised AssertionError, which left
the tasks after it running.
---
 txstatsd/report.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 6447108..d882bed 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -88,7 +88,9 @@ class ReportingService(Service):
 
     def stopService(self):
         for task, interval in self.tasks:
-            task.stop()
+            # A task whose function raised an error is no longer running.
+            if task.running:
+                task.stop()
         Service.stopService(self)
 
 
-- 
2.43.0


From 19594dd90540b55f0f120cc4656cc0b3d7df107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 21/39] fix: keep reporting counters after an error or a new
 counter

The differences came from a generator, which any exception ended for
good (StopIteration from then on): one failed reading was enough, or a
counter that was not there before, such as a new network device.
---
 txstatsd/process.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index f51e4f0..92c13da 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -160,21 +160,17 @@ def report_counters(report_function, *args, **kwargs):
     Report difference between last value and current value for wrapped
     function.
     """
-    def generate():
-        last_value = None
-        while True:
-            result = {}
-            new_value = report_function(*args, **kwargs)
-            if last_value is None:
-                last_value = new_value
-            else:
-                for key, value in new_value.iteritems():
-                    result[key] = value - last_value[key]
-                last_value = new_value
-            yield result
-    generator = generate()
+    last_values = []
     def report():
-        return generator.next()
+        result = {}
+        new_value = report_function(*args, **kwargs)
+        if last_values:
+            last_value = last_values.pop()
+            for key, value in new_value.iteritems():
+                if key in last_value:
+                    result[key] = value - last_value[key]
+        last_values.append(new_value)
+        return result
     update_wrapper(report, report_function)
     return report
 
-- 
2.43.0


From a0dc2bcc02cf96e9aba90da24e499976e31b2afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:48 +0000
Subject: [PATCH 22/39] fix: allow for random() returning zero in the decaying
 sample

random() is in [0.0, 1.0), so the priority could divide by zero.
---
 txstatsd/stats/exponentiallydecayingsample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/stats/exponentiallydecayingsample.py b/txstatsd/stats/exponentiallydecayingsample.py
index a02dca1..d619eb2 100644
--- a/txstatsd/stats/exponentiallydecayingsample.py
+++ b/txstatsd/stats/exponentiallydecayingsample.py
@@ -83,7 +83,8 @@ class ExponentiallyDecayingSample(object):
         if now >= self.next_scale_time:
             self.rescale(now, self.next_scale_time)
 
-        priority = exp(self.alpha * (timestamp - self.start_time)) / random()
+        priority = exp(self.alpha * (timestamp - self.start_time)) / (
+            1.0 - random())
         values = self._values
 
         if self.count < self.reservoir_size:
-- 
2.43.0


From 8504282421c737598cb1ce13f0eb6930600e01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 23/39] fix: give short command line options precedence over
 the config file

Only the long spelling of an option was recognised as overriding the
config file: '-l 9000' was silently replaced by its listen-port.
---
 txstatsd/service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 581d4d2..6d1f30b 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -100,7 +100,7 @@ class OptionsGlue(usage.Options):
                 opt = opt[2:]
             else:
                 opt = opt[1:]
-            self.overridden_options.append(opt)
+            self.overridden_options.append(self.synonyms.get(opt, opt))
 
         super(OptionsGlue, self).parseOptions(options=options)
 
-- 
2.43.0


From 72456d26603008c1272b020ee72123e57eb54a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 24/39] fix: compute the standard deviation of values that
 start with -1

The initial mean of -1 was used as the mark of an empty histogram, so
whenever the running mean was -1 the variance started over.
---
 txstatsd/metrics/histogrammetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 3f68b77..1d96662 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -218,7 +218,7 @@ class HistogramMetricReporter(object):
     def update_variance(self, value):
         old_values = self.variance
         new_values = [0.0, 0.0]
-        if old_values[0] == -1:
+        if self.count == 1:
             new_values[0] = value
             new_values[1] = 0.0
         else:
-- 
2.43.0


From 9a547347c22a8c395233bc28830df5f8b00afb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 25/39] fix: consider every entry of the hash ring in get_nodes

The entry just before the key's position was never examined, so with few
replicas a node could be missing, and a lone entry was never found.
---
 txstatsd/hashing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index c823914..a1eb52a 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -62,8 +62,9 @@ class ConsistentHashRing:
         position = self.compute_ring_position(key)
         search_entry = (position, None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
-        last_index = (index - 1) % len(self.ring)
-        while len(nodes) < len(self.nodes) and index != last_index:
+        for _ in range(len(self.ring)):
+            if len(nodes) >= len(self.nodes):
+                break
             next_entry = self.ring[index]
             (position, next_node) = next_entry
             if next_node not in nodes:
-- 
2.43.0


From da27108e2bc01865e9d725612293a2c69b416698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:24 +0000
Subject: [PATCH 26/39] fix: send to every carbon-cache host that is configured

A destination was only used if it had a host, a port and a name: with
several hosts and no (optional) names, all but the first were silently
left out.
---
 txstatsd/service.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 6d1f30b..a0611e3 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -302,9 +302,11 @@ def createService(options, reactor=None):
 
     if not options["carbon-cache-host"]:
         options["carbon-cache-host"].append("127.0.0.1")
-    if not options["carbon-cache-port"]:
+    # Every host is a destination, whether or not it has a port and a name.
+    destinations = len(options["carbon-cache-host"])
+    while len(options["carbon-cache-port"]) < destinations:
         options["carbon-cache-port"].append(2004)
-    if not options["carbon-cache-name"]:
+    while len(options["carbon-cache-name"]) < destinations:
         options["carbon-cache-name"].append(None)
 
     reporting = ReportingService(instance_name)
-- 
2.43.0


From 0de6e3b502194ac72f04ab164d9f169e019064f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:52 +0000
Subject: [PATCH 27/39] fix: report the delays of the reactor inspector in the
 reactor thread

The inspector's thread passed its samples straight to the message
processor, which the reactor thread is using at the same time.
---
 txstatsd/report.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index d882bed..32d8e00 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -188,12 +188,24 @@ class ReactorInspector(threading.Thread):
                 msg_id += 1
 
 
+class ReactorThreadMetrics(object):
+    """Report metrics in the reactor thread, whatever the calling thread."""
+
+    def __init__(self, reactor, metrics):
+        self.reactor = reactor
+        self.metrics = metrics
+
+    def gauge(self, name, value):
+        self.reactor.callFromThread(self.metrics.gauge, name, value)
+
+
 class ReactorInspectorService(Service):
     """Start/stop the reactor inspector service."""
 
     def __init__(self, reactor, metrics, loop_time=3):
         self.inspector = ReactorInspector(
-            reactor.callFromThread, metrics, loop_time)
+            reactor.callFromThread, ReactorThreadMetrics(reactor, metrics),
+            loop_time)
 
     def startService(self):
         Service.startService(self)
-- 
2.43.0


From 9188e27bf28ae219079c2729357f8b451b877bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:52 +0000
Subject: [PATCH 28/39] fix: let /status tell when flushing takes too long

The durations of flushing and processing are in seconds, and were
compared with the flush interval in milliseconds, so the status of a
server that could not keep up was still OK.
---
 txstatsd/service.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index a0611e3..4b89741 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -209,7 +209,9 @@ class StatsDService(Service):
     def __init__(self, carbon_client, processor, flush_interval, clock=None):
         self.carbon_client = carbon_client
         self.processor = processor
-        self.flush_interval = flush_interval
+        self.flush_interval_ms = flush_interval
+        # In seconds, like the durations that it is compared with in /status.
+        self.flush_interval = flush_interval / 1000.0
         self.flush_task = task.LoopingCall(self.flushProcessor)
         self.coop = task.Cooperator()
         if clock is not None:
@@ -218,7 +220,7 @@ class StatsDService(Service):
     def flushProcessor(self):
         """Flush messages queued in the processor to Graphite."""
         start = time.time()
-        interval = self.flush_interval
+        interval = self.flush_interval_ms
         flush = self.processor.flush
 
         def doWork():
@@ -233,7 +235,7 @@ class StatsDService(Service):
         self.coop.coiterate(doWork())
 
     def startService(self):
-        self.flush_task.start(self.flush_interval / 1000.0, False)
+        self.flush_task.start(self.flush_interval, False)
 
     def stopService(self):
         if self.flush_task.running:
-- 
2.43.0


From 539ba1643e5bc7a85dea5cd45b4335016dd6020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:14 +0000
Subject: [PATCH 29/39] fix: keep the original of a duplicated metric wherever
 its path is rewritten

---
 txstatsd/server/router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 0dde45f..14a53bd 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -245,7 +245,7 @@ class Router(BaseMessageProcessor):
         rexp = re.compile(pattern)
 
         def rewrite_target(metric_type, key, fields):
-            if dup == "dup" and rexp.match(key) is not None:
+            if dup == "dup" and rexp.search(key) is not None:
                 yield metric_type, key, fields
             key = rexp.sub(repl, key)
             yield metric_type, key, fields
-- 
2.43.0


From fc20ee294a78d664383d59c942ef6f2731741381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 30/39] fix: stop a TCP redirect that is still connecting, and
 let it start again

---
 txstatsd/server/router.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 14a53bd..de3c1a9 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -77,15 +77,22 @@ class TCPRedirectService(Service):
         if reactor is None:
             from twisted.internet import reactor
         self.reactor = reactor
+        self.connector = None
 
     def startService(self):
-        self.reactor.connectTCP(self.host, self.port, self.factory)
+        # Stopping tells the factory to give up.
+        self.factory.continueTrying = 1
+        if self.connector is None:
+            self.connector = self.reactor.connectTCP(
+                self.host, self.port, self.factory)
+        elif self.connector.state == "disconnected":
+            self.connector.connect()
         return Service.startService(self)
 
     def stopService(self):
         self.factory.stopTrying()
-        if self.factory.protocol:
-            self.factory.protocol.transport.loseConnection()
+        if self.connector is not None:
+            self.connector.disconnect()
         return Service.stopService(self)
 
 
-- 
2.43.0


From a839af3cfd85f4c212e5ebbd7556aff6bd1c21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:02 +0000
Subject: [PATCH 31/39] fix: receive every line of a TCP connection, and keep
 the connection

---
 txstatsd/server/protocol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/protocol.py b/txstatsd/server/protocol.py
index f76bf21..f7f8e60 100644
--- a/txstatsd/server/protocol.py
+++ b/txstatsd/server/protocol.py
@@ -66,9 +66,11 @@ class StatsDTCPServerProtocol(LineReceiver):
         if data == self.monitor_message:
             # Send the expected response to the
             # monitoring agent.
-            return self.transport.write(self.monitor_response)
-        return self.transport.reactor.callLater(
-            0, self.processor.process, data)
+            self.transport.write(self.monitor_response)
+        else:
+            # Anything that is returned ends the connection.
+            self.transport.reactor.callLater(
+                0, self.processor.process, data)
 
 
 class StatsDTCPServerFactory(Factory):
-- 
2.43.0


From 5e2653598f057700e0ad038a9cd9609fe112eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 32/39] fix: tell the callback of a message whose port closed
 before it was sent

---
 txstatsd/protocol.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index 2d56068..8c72ad9 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -103,10 +103,14 @@ class TransportGateway(object):
         @raise twisted.internet.error.MessageLengthError: If the size of data
             is too large.
         """
-        try:
-            bytes_sent = self.transport.write(data, (self.host, self.port))
-        except (OverflowError, TypeError, socket.error, socket.gaierror):
-            bytes_sent = None
+        bytes_sent = None
+        # The port may have been closed since the message was written.
+        if self.transport is not None:
+            try:
+                bytes_sent = self.transport.write(
+                    data, (self.host, self.port))
+            except (OverflowError, TypeError, socket.error, socket.gaierror):
+                pass
         if callback is not None:
             callback(bytes_sent)
 
@@ -197,6 +201,8 @@ class TwistedStatsDClient(object):
             self.disconnect_callback()
         with self._lock:
             self.transport = None
+            if self.transport_gateway is not None:
+                self.transport_gateway.transport = None
 
     def write(self, data, callback=None):
         """Send the metric to the StatsD server.
-- 
2.43.0


From b6ffffe4f81094b73d6244ab36b6443a751cf21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 33/39] fix: send distinct items with the metric type that the
 server's plugin takes

---
 txstatsd/metrics/distinctmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/distinctmetric.py b/txstatsd/metrics/distinctmetric.py
index 7bad3ec..eafde3c 100644
--- a/txstatsd/metrics/distinctmetric.py
+++ b/txstatsd/metrics/distinctmetric.py
@@ -114,7 +114,7 @@ class DistinctMetric(Metric):
 
     def mark(self, item):
         """Report this item was seen."""
-        self.send("%s|d" % item)
+        self.send("%s|pd" % item)
 
 
 class DistinctMetricReporter(object):
-- 
2.43.0


From 73108e499d6b9d767ff80021c3813f0a5aae2e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:19 +0000
Subject: [PATCH 34/39] fix: keep the priorities of the decaying sample apart
 at any age

---
 txstatsd/stats/exponentiallydecayingsample.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/txstatsd/stats/exponentiallydecayingsample.py b/txstatsd/stats/exponentiallydecayingsample.py
index d619eb2..a297f03 100644
--- a/txstatsd/stats/exponentiallydecayingsample.py
+++ b/txstatsd/stats/exponentiallydecayingsample.py
@@ -21,7 +21,7 @@
 
 from time import time
 from random import random
-from math import exp
+from math import log
 from bisect import insort
 
 
@@ -83,7 +83,8 @@ class ExponentiallyDecayingSample(object):
         if now >= self.next_scale_time:
             self.rescale(now, self.next_scale_time)
 
-        priority = exp(self.alpha * (timestamp - self.start_time)) / (
+        # The logarithm of the priority, which no age makes vanish.
+        priority = self.alpha * (timestamp - self.start_time) - log(
             1.0 - random())
         values = self._values
 
@@ -127,6 +128,6 @@ class ExponentiallyDecayingSample(object):
 
         new_values = []
         for k, v in self._values:
-            nk = k * exp(-self.alpha * (self.start_time - old_start_time))
+            nk = k - self.alpha * (self.start_time - old_start_time)
             insort(new_values, (nk, v))
         self._values = new_values
-- 
2.43.0


From d19c6692a9f1821f642335678ce8af45a0b7ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:22 +0000
Subject: [PATCH 35/39] fix: keep calling a function that is not reported after
 it failed

---
 txstatsd/report.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 32d8e00..0130f31 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -51,11 +51,7 @@ class ReportingService(Service):
         If C{report_function} is C{None}, it just calls the function without
         reporting the metrics.
         """
-        if report_function is not None:
-            call = self.wrapped(function, report_function)
-        else:
-            call = function
-        task = LoopingCall(call)
+        task = LoopingCall(self.wrapped(function, report_function))
         if self.clock is not None:
             task.clock = self.clock
         self.tasks.append((task, interval))
@@ -65,6 +61,8 @@ class ReportingService(Service):
     def wrapped(self, function, report_function):
         def report_metrics(metrics):
             """For each metric returned, call C{report_function} with it."""
+            if report_function is None:
+                return metrics
             for name, value in metrics.items():
                 if self.instance_name:
                     name = self.instance_name + "." + name
-- 
2.43.0


From 813cef19497f9ad3eee9dd3765d0c78f6b29f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:26 +0000
Subject: [PATCH 36/39] fix: inspect the reactor again when the service starts
 again

---
 txstatsd/report.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 0130f31..498e4a2 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -201,12 +201,22 @@ class ReactorInspectorService(Service):
     """Start/stop the reactor inspector service."""
 
     def __init__(self, reactor, metrics, loop_time=3):
-        self.inspector = ReactorInspector(
-            reactor.callFromThread, ReactorThreadMetrics(reactor, metrics),
-            loop_time)
+        self.reactor = reactor
+        self.metrics = metrics
+        self.loop_time = loop_time
+        self.inspector = self.createInspector()
+
+    def createInspector(self):
+        return ReactorInspector(
+            self.reactor.callFromThread,
+            ReactorThreadMetrics(self.reactor, self.metrics),
+            self.loop_time)
 
     def startService(self):
         Service.startService(self)
+        if self.inspector.stopped:
+            # A thread can only be started once.
+            self.inspector = self.createInspector()
         self.inspector.start()
 
     def stopService(self):
-- 
2.43.0


From 6580339e823e8be00a4e6a03c3aff528d193bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:56 +0000
Subject: [PATCH 37/39] fix: show the durations of a whole flush in /status,
 also during the next

---
 txstatsd/server/processor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 7ff4567..2ba4da3 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -376,7 +376,6 @@ class MessageProcessor(BaseMessageProcessor):
         yield ((self.internal_metrics_prefix + "numStats",
                 num_stats, timestamp),)
 
-        self.last_flush_duration = 0
         for name, (value, duration) in per_metric.iteritems():
             yield ((self.internal_metrics_prefix +
                     "flush.%s.count" % name,
@@ -386,13 +385,15 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration
 
         # Messages processed from here on are accounted for in the next flush.
         process_timings, self.process_timings = self.process_timings, {}
         by_type, self.by_type = self.by_type, {}
 
-        self.last_process_duration = 0
+        # These two are read while the rest of the summary is being flushed.
+        self.last_flush_duration = sum(
+            duration for value, duration in per_metric.values())
+        self.last_process_duration = sum(process_timings.values())
         for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
@@ -402,4 +403,3 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration
-- 
2.43.0


From 4a09dccea232640ea168bc2fdbc0e750eb0a359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:13 +0000
Subject: [PATCH 38/39] fix: publish counters beyond 32 bits as they are under
 Jython

---
 txstatsd/metrics/countermetric.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/txstatsd/metrics/countermetric.py b/txstatsd/metrics/countermetric.py
index fc7a72c..b3f3ff5 100644
--- a/txstatsd/metrics/countermetric.py
+++ b/txstatsd/metrics/countermetric.py
@@ -19,8 +19,6 @@
 # TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
-import math
-
 from txstatsd.metrics.metric import Metric
 
 
@@ -85,4 +83,4 @@ class CounterMetricReporter(object):
 
     def report(self, timestamp):
         return [(self.prefix + self.name + ".count",
-                 math.trunc(self.count), timestamp)]
+                 int(self.count), timestamp)]
-- 
2.43.0


From b9b2644efb47e75cb7b6f83d8bd0a916bb576490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:24 +0000
Subject: [PATCH 39/39] fix: treat service level samples that are not finite
 numbers as malformed

---
 txstatsd/metrics/slimetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/slimetric.py b/txstatsd/metrics/slimetric.py
index b7bd282..7964f13 100644
--- a/txstatsd/metrics/slimetric.py
+++ b/txstatsd/metrics/slimetric.py
@@ -19,6 +19,8 @@
 # CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF CONTRACT,
 # TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE
 # SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+from txstatsd.server.processor import parse_value
+
 
 class BelowCondition(object):
 
@@ -65,11 +67,11 @@ class SLIMetricReporter(object):
     def process(self, fields):
         size = 1
         if len(fields) == 3:
-            size = float(fields[2])
+            size = parse_value(fields[2])
 
         value = "error"
         if value != fields[0]:
-            value = float(fields[0])
+            value = parse_value(fields[0])
         self.update(value, size)
 
     def update(self, value, size=1):
-- 
2.43.0

