From f1c74cea074fbcae8a412e00f2ee0b4226eed5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 01/39] fix: time.__le__ passed the time class as allow_mixed,
 so naive <= aware returned a result

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2ccd727..a0ea5a5 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1202,7 +1202,7 @@ class time:
                 if isinstance(other, time) else NotImplemented)
 
     def __le__(self, other):
-        return (self._cmp(other, time) <= 0 if isinstance(other, time)
+        return (self._cmp(other) <= 0 if isinstance(other, time)
                 else NotImplemented)
 
     def __lt__(self, other):
-- 
2.43.0


From f1e39122988278538e87af6aed208675c5ba8697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 02/39] =?UTF-8?q?fix:=20unpickle=20dates=20and=20datetimes?=
 =?UTF-8?q?=20that=20fall=20in=20Ayy=C3=A1m-i-H=C3=A1=20(month=200)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index a0ea5a5..89d11b7 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -910,8 +910,8 @@ class date(BahaiCalendar):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 4 else False
 
-            if ((short and 1 <= ord(a[2:3]) <= 19)
-                or not short and 1 <= ord(a[3:4]) <= 19):
+            if ((short and 0 <= ord(a[2:3]) <= 19)
+                or not short and 0 <= ord(a[3:4]) <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
@@ -2530,8 +2530,8 @@ class datetime(date):
                 f"Invalid string {a} had length of {a_len} for pickle.")
             short = True if a_len == 10 else False
 
-            if ((short and 1 <= ord(a[2:3]) & 0x7F <= 19)
-                or not short and 1 <= ord(a[3:4]) & 0x7F <= 19):
+            if ((short and 0 <= ord(a[2:3]) & 0x7F <= 19)
+                or not short and 0 <= ord(a[3:4]) & 0x7F <= 19):
                 if isinstance(a, str):
                     try:
                         a = a.encode('latin1')
-- 
2.43.0


From f31f6bb9252531ff0a2c92486a3cef3528dd5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 03/39] fix: unpickle times whose hour is 24

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 89d11b7..1591d3c 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1102,7 +1102,7 @@ class time:
         :rtype: time
         """
         if (isinstance(hour, (bytes, str)) and len(hour) == 6 and
-            ord(hour[0:1]) & 0x7F < 24):
+            ord(hour[0:1]) & 0x7F < 25):
             # Pickle support
             if isinstance(hour, str):
                 try:
-- 
2.43.0


From 58d96acf8441e3de17ef4bf22d1bd99bdd5ca034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 04/39] fix: restore the zone and the name of an unpickled
 TZWithCoords

---
 badidatetime/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 1591d3c..2f04be0 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2945,7 +2945,9 @@ class TZWithCoords(timezone):
         if zone is not None:
             self._offset = timedelta(hours=zone)
 
+        self.zone = zone
         self.key = key
+        self._name = key if key else None
         self._coords = (self.lat, self.lon, zone)
 
 
-- 
2.43.0


From 438dcd45484f24bbdc00c0e7fa1027f79424d846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 05/39] fix: keep the zoneinfo of TZWithCoords.fromzoneinfo on
 the instance, not the class

---
 badidatetime/datetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 2f04be0..e7e7710 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2905,8 +2905,9 @@ class TZWithCoords(timezone):
         :returns: A TZWithCoords object.
         :rtype: TZWithCoords
         """
-        cls._zi = zoneinfo
-        return cls(lat, lon, zone, key=zoneinfo.key)
+        self = cls(lat, lon, zone, key=zoneinfo.key)
+        self._zi = zoneinfo
+        return self
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 85563635e06d46b62fb43a8c070befef2dc25318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 06/39] fix: count the microseconds of a naive datetime only
 once in timestamp()

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index e7e7710..c02ea80 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1959,7 +1959,7 @@ class datetime(date):
         :rtype: float
         """
         if self.tzinfo is None:
-            return self._mktime() + self.microsecond / 1e6
+            return self._mktime()
         else:
             return (self - _EPOCH).total_seconds()
 
-- 
2.43.0


From 804ae58d041e0c7eac3c9415cafe0080f29191c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 07/39] fix: keep the zoneinfo of a TZWithCoords when it is
 pickled or copied

---
 badidatetime/datetime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index c02ea80..672b0f7 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2931,7 +2931,8 @@ class TZWithCoords(timezone):
         :rtype: tuple
         """
         return (self.__class__, (self.lat, self.lon),
-                {"zone": self._coords[2], "key": self.key})
+                {"zone": self._coords[2], "key": self.key,
+                 "zi": getattr(self, '_zi', None)})
 
     def __setstate__(self, state: dict) -> None:
         """
@@ -2950,6 +2951,10 @@ class TZWithCoords(timezone):
         self.key = key
         self._name = key if key else None
         self._coords = (self.lat, self.lon, zone)
+        zi = state.get("zi")
+
+        if zi is not None:
+            self._zi = zi
 
 
 UTC = timezone.utc = TZWithCoords(*GMT_COORD, key='UTC')
-- 
2.43.0


From 83f94ee09a1157c3d78ff5ca0157d00bbfb940e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 08/39] fix: strftime dropped or re-read literal characters
 next to '%', '-' and ':'

---
 badidatetime/_timedateutils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 2456039..24fd272 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -888,7 +888,8 @@ class TimeDateUtils(BahaiCalendar):
                 ch1 = format[idx+i]
                 strf += self.__METHOD_LOOKUP[ch1](
                     self, ttup, ch1, ch0 if i == 2 else '')
-            elif format[idx-1] not in '%-:':
+                idx += i
+            elif ch != '%':  # A lone trailing '%' is dropped.
                 strf += ch
 
             idx += 1
@@ -907,17 +908,19 @@ class TimeDateUtils(BahaiCalendar):
         while idx < fmtlen:
             ch = format[idx]
 
-            if ch == '%' and format[idx-1] != '%':
+            if ch == '%' and idx+1 < fmtlen:
                 ch0 = format[idx+1]
                 i = 2 if ch0 in '-:' else 1
-                ch1 = format[idx+i]
+                ch1 = format[idx+i:idx+i+1]
 
-                if ((ch1 not in self._VALID_FORMAT_CHRS) or
+                if (not ch1 or (ch1 not in self._VALID_FORMAT_CHRS) or
                     (ch0 == '-' and ch1 not in 'dHjlmMSy') or
                     (ch0 == ':' and ch1 not in 'KVz')):
                     raise ValueError(
                         f"Invalid format character '{format[idx:idx+i+1]}'")
 
+                idx += i
+
             idx += 1
 
         if fmtlen == 0:
-- 
2.43.0


From 108f382d7b104b68b03268db9bb33789ed8b3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 09/39] fix: a date-only ISO string was split at its last
 hyphen as if it had a timezone

---
 badidatetime/_timedateutils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 24fd272..66b87d5 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1190,10 +1190,20 @@ class TimeDateUtils(BahaiCalendar):
         tz_chars = ('Z', 'B', '+', '-')
         init_chars = ('T', ' ') + tz_chars
         idx = find_index(dtstr, init_chars)
+
+        if dtstr[idx:idx+1] == '-':
+            # Without a time, a hyphen starts a timezone only when it follows
+            # a complete date.
+            head = dtstr[dtstr[0] == '-':idx]
+            hyphens = head.count('-')
+
+            if hyphens != 2 and (hyphens != 0 or len(head) < 7):
+                idx = len(dtstr)
+
         str_date = dtstr[:idx]
         date = self._parse_isoformat_date(str_date) if str_date else ()
         str_other = dtstr[idx:]
-        tz_1st = str_other[0] in tz_chars
+        tz_1st = str_other[:1] in tz_chars
 
         if tz_1st:
             tz = (self._parse_isoformat_timezone(str_other)
-- 
2.43.0


From 48c39f8306b41c7c244fe59c1863cd42a57db771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 10/39] fix: apply the sign of an ISO timezone to its minutes
 as well as its hours

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 66b87d5..09d78bd 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1422,7 +1422,7 @@ class TimeDateUtils(BahaiCalendar):
                 tz = timezone.badi
             else:
                 offset = [int(x) for x in tzstr[1:].split(':')]
-                offset[0] = offset[0] * -1 if nc else offset[0]
+                offset = [x * -1 if nc else x for x in offset]
                 offset += [0] if len(offset) == 1 else []
                 tz = timezone(timedelta(hours=offset[0], minutes=offset[1]))
         else:
-- 
2.43.0


From 3eedb206d83dd3abe747c59779c08cd02024a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 11/39] fix: parse both digits of the day in a basic format ISO
 date

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 09d78bd..d3a1543 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1257,7 +1257,7 @@ class TimeDateUtils(BahaiCalendar):
         if dc == 1 and d_len == 7 and not wc:    # YYYY-MM
             date = (year, int(dtstr[5:7]), 1)
         elif dc == 0 and d_len == 8 and not wc:  # YYYYMMDD
-            date = (year, int(dtstr[4:6]), int(dtstr[7:9]))
+            date = (year, int(dtstr[4:6]), int(dtstr[6:8]))
         elif dc == 2 and not wc:                 # YYYY-MM-DD
             date = (year, int(dtstr[5:7]), int(dtstr[8:10]))
         # YYYYWww, YYYY-Www, YYYYWwwD, YYYY-Www-D
-- 
2.43.0


From 968b6dcc3a8cfcc0405e3130e18ff989c524610f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:28 +0000
Subject: [PATCH 12/39] fix: reject an ISO ordinal date past the end of its
 year

---
 badidatetime/_timedateutils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index d3a1543..f02d795 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1281,6 +1281,9 @@ class TimeDateUtils(BahaiCalendar):
             for month, ds in month_days:
                 if days <= ds: break
                 days -= ds
+            else:
+                raise ValueError(
+                    f"The day of the year is out of range in {dtstr!r}.")
 
             date = (year, month, days)
         else:
-- 
2.43.0


From 50d58e2f4e1bbf26bdde3535e55dbf64663b4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 13/39] =?UTF-8?q?fix:=20datetime.isoformat=20used=20the=20?=
 =?UTF-8?q?V=C3=A1=E1=B8=A5id=20year=20of=20a=20long=20form=20date=20as=20?=
 =?UTF-8?q?the=20year?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 672b0f7..d064b2d 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2190,7 +2190,7 @@ class datetime(date):
         :returns: An ISO formatted string.
         :rtype: str
         """
-        s = (f"{self._year:04d}-{self._month:02d}-{self._day:02d}{sep}" +
+        s = (f"{date.isoformat(self)}{sep}" +
              _format_time(self._hour, self._minute, self._second,
                           self._microsecond, timespec))
 
-- 
2.43.0


From ee5302f36422888ff7ce8095b5a0db35ae4f126a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 14/39] =?UTF-8?q?fix:=20datetime.date()=20dropped=20the=20?=
 =?UTF-8?q?Kull-i-Shay=E2=80=99=20and=20V=C3=A1=E1=B8=A5id=20of=20a=20long?=
 =?UTF-8?q?=20form=20date?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index d064b2d..442283f 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1992,7 +1992,7 @@ class datetime(date):
         :returns: The date part of the `datetime` instance.
         :rtype: date
         """
-        return date(self._year, self._month, self._day)
+        return date(*self.b_date)
 
     def time(self):
         """
-- 
2.43.0


From 8f1c31fe2120ce2e1409eacaafba4d08cc932de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 15/39] fix: compare short and long form dates by the day they
 denote

---
 badidatetime/datetime.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 442283f..fd855d0 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -776,15 +776,8 @@ class date(BahaiCalendar):
         """
         assert isinstance(other, date)
 
-        if self.is_short:
-            d0 = self._year, self._month, self._day
-            d1 = other._year, other._month, other._day
-        else:
-            d0 = (self._kull_i_shay, self._vahid, self._year,
-                  self._month, self._day)
-            d1 = (other._kull_i_shay, other._vahid, other._year,
-                  other._month, other._day)
-
+        d0 = self._short_from_long_form()[:3]
+        d1 = other._short_from_long_form()[:3]
         return _cmp(d0, d1)
 
     def __hash__(self) -> int:
-- 
2.43.0


From 4c1c48b3332ab4352b35413da9bb4ddec07243a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 16/39] fix: hash short and long form dates by the day they
 denote

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index fd855d0..3ec6dfd 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -788,7 +788,7 @@ class date(BahaiCalendar):
         :rtype: int
         """
         if self._hashcode == -1:
-            self._hashcode = hash(self._getstate())
+            self._hashcode = hash(self._short_from_long_form()[:3])
 
         return self._hashcode
 
-- 
2.43.0


From 55c993dd23d8b36d32a3ed4e349c4feeb3d5b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 17/39] fix: compare and hash datetimes by the day they denote
 in either form

---
 badidatetime/datetime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 3ec6dfd..9f13881 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2390,9 +2390,9 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((self._year, self._month, self._day, self._hour,
+            return _cmp((*self._short_from_long_form()[:3], self._hour,
                          self._minute, self._second, self._microsecond),
-                        (other._year, other._month, other._day, other._hour,
+                        (*other._short_from_long_form()[:3], other._hour,
                          other._minute, other._second, other._microsecond))
 
         if myoff is None or otoff is None:
@@ -2493,9 +2493,11 @@ class datetime(date):
             tzoff = t.utcoffset()
 
             if tzoff is None:
-                self._hashcode = hash(t._getstate()[0])
+                self._hashcode = hash((*self._short_from_long_form()[:3],
+                                       self._hour, self._minute, self._second,
+                                       self._microsecond))
             else:
-                days = _td_utils._ymd2ord(self.year, self.month, self.day)
+                days = self.toordinal()
                 seconds = self.hour * 3600 + self.minute * 60 + self.second
                 self._hashcode = hash(timedelta(days, seconds,
                                                 self.microsecond) - tzoff)
-- 
2.43.0


From 4c0d186d006802ded4d64528fd4c94b9090ccfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:53 +0000
Subject: [PATCH 18/39] =?UTF-8?q?fix:=20timestamp()=20of=20a=20naive=20lon?=
 =?UTF-8?q?g=20form=20datetime=20read=20its=20Kull-i-Shay=E2=80=99=20as=20?=
 =?UTF-8?q?the=20year?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 9f13881..a5c7dc1 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1941,8 +1941,8 @@ class datetime(date):
         :returns: The POSIX timestamp.
         :rtype: float
         """
-        return self.timestamp_from_badi_date(self.b_date + self.b_time,
-                                             *LOCAL_COORD)
+        date = self._short_from_long_form()[:3]
+        return self.timestamp_from_badi_date(date + self.b_time, *LOCAL_COORD)
 
     def timestamp(self) -> float:
         """
-- 
2.43.0


From 6a7aa701bc83577aae40483a9ccf61732e84555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 19/39] fix: the strptime regex cache was stored under the
 builtin format function

---
 badidatetime/_strptime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index 0aa2800..d3ce4c9 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -423,7 +423,7 @@ class StrpTime:
                     raise ValueError(f"stray %% in format '{self.format}'"
                                      ) from None
 
-                _regex_cache[format] = format_regex
+                _regex_cache[self.format] = format_regex
 
         found = format_regex.match(self.data_string)
 
-- 
2.43.0


From ca23e2235902f939c5a9488d21f4736e0f50f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 20/39] fix: the nutation memo could answer with another
 thread's, or no, computation

---
 badidatetime/base_calendar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/badidatetime/base_calendar.py b/badidatetime/base_calendar.py
index b18648b..ca3115c 100644
--- a/badidatetime/base_calendar.py
+++ b/badidatetime/base_calendar.py
@@ -63,7 +63,8 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
 
     def __init__(self, *args, **kwargs):
         self._time = None
-        self._nutation = {'lon': (0, 0, False), 'obl': (0, 0, False)}
+        self._nutation = {'lon': (None, 0, False),
+                          'obl': (None, 0, False)}
         self._sun_tss = {'trn': (), 'rsn': (), 'stn': ()}
 
     #
@@ -469,7 +470,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['lon'][1]
+        return lon_sum
 
     def _nutation_obliquity(self, tc: float, *, degrees: bool=False) -> float:
         """
@@ -481,7 +482,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
         :returns: The nutation of obliquity.
         :rtype: float
         """
-        tc_day, obj_sum, deg = self._nutation['obl']
+        tc_day, obl_sum, deg = self._nutation['obl']
 
         if tc != tc_day or degrees != deg:
             lon_sum, obl_sum = self._nutation_obliquity_longitude(
@@ -489,7 +490,7 @@ class BaseCalendar(AstronomicalTerms, JulianPeriod):
             self._nutation['lon'] = (tc, lon_sum, degrees)
             self._nutation['obl'] = (tc, obl_sum, degrees)
 
-        return self._nutation['obl'][1]
+        return obl_sum
 
     def _nutation_obliquity_longitude(self, tc: float, degrees: bool=False
                                       ) -> float:
-- 
2.43.0


From f0c7427018d5c6e6aec21160eb837767e4d61c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 21/39] fix: reject dates outside MINYEAR to MAXYEAR in the
 constructors

---
 badidatetime/_timedateutils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index f02d795..8a90e59 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1453,10 +1453,15 @@ class TimeDateUtils(BahaiCalendar):
         """
         if short_in:
             b_date = (a, b, c)
+            year = a
         else:
             b_date = (a, b, c, d, e)
+            year = (a - 1) * 361 + (b - 1) * 19 + c
 
         self._check_valid_badi_date(b_date, short_in=short_in)
+        assert self.MINYEAR <= year <= self.MAXYEAR, (
+            f"Invalid year '{year}' it must be in the range of "
+            f"[{self.MINYEAR}, {self.MAXYEAR}].")
 
     def _check_time_fields(self, hour: int, minute: int, second: int,
                            microsecond: int, fold: int) -> None:
-- 
2.43.0


From 7016d0a6c0f85abc55dc0fa6dd3ee14e979ac447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 22/39] =?UTF-8?q?fix:=20order=20Ayy=C3=A1m-i-H=C3=A1=20bet?=
 =?UTF-8?q?ween=20the=2018th=20and=2019th=20months=20when=20dates=20are=20?=
 =?UTF-8?q?compared?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index a5c7dc1..ee7abc1 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -776,9 +776,18 @@ class date(BahaiCalendar):
         """
         assert isinstance(other, date)
 
-        d0 = self._short_from_long_form()[:3]
-        d1 = other._short_from_long_form()[:3]
-        return _cmp(d0, d1)
+        return _cmp(self._day_key(), other._day_key())
+
+    def _day_key(self) -> tuple:
+        """
+        Get a key that sorts in the order the days occur. Ayyám-i-Há (month 0)
+        falls between the 18th and 19th months.
+
+        :returns: The year, position of the month in the year, and day.
+        :rtype: tuple
+        """
+        year, month, day = self._short_from_long_form()[:3]
+        return year, month or 18.5, day
 
     def __hash__(self) -> int:
         """
@@ -2390,10 +2399,10 @@ class datetime(date):
             base_compare = myoff == otoff
 
         if base_compare:
-            return _cmp((*self._short_from_long_form()[:3], self._hour,
-                         self._minute, self._second, self._microsecond),
-                        (*other._short_from_long_form()[:3], other._hour,
-                         other._minute, other._second, other._microsecond))
+            return _cmp((*self._day_key(), self._hour, self._minute,
+                         self._second, self._microsecond),
+                        (*other._day_key(), other._hour, other._minute,
+                         other._second, other._microsecond))
 
         if myoff is None or otoff is None:
             if allow_mixed:
-- 
2.43.0


From b8651b885f168dc837f1a5e778b1358d1084c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 23/39] fix: strftime rejected the documented %w directive

---
 badidatetime/_timedateutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 8a90e59..dc89375 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -20,7 +20,7 @@ class TimeDateUtils(BahaiCalendar):
     use is through a pre-instantiated object _td_utils.
     """
     # Badi additions are %:K for Kull-i-Shay and %:V for Váḥid.
-    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVWxXyYzZ%'
+    _VALID_FORMAT_CHRS = 'aAbBcCdDefGhHIjkKlmMnprSTuUVwWxXyYzZ%'
     """
     str: A list of all the format characters.
     """
-- 
2.43.0


From 92a7e941ebb002e07c12a7d465346e1ac0dbfc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:32 +0000
Subject: [PATCH 24/39] =?UTF-8?q?fix:=20%:K=20doubled=20the=20minus=20sign?=
 =?UTF-8?q?=20of=20a=20negative=20Kull-i-Shay=E2=80=99?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/_timedateutils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index dc89375..ab64f8e 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -542,8 +542,7 @@ class TimeDateUtils(BahaiCalendar):
             else:
                 kull_i_shay = ttup.tm_kull_i_shay
 
-            n = '-' if kull_i_shay < 0 else ''
-            st += f"{n}{kull_i_shay}"
+            st += f"{kull_i_shay}"
 
         return st
 
-- 
2.43.0


From 866118d5cd8d70d076e97bae782038c6ff15a3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 25/39] =?UTF-8?q?fix:=20replace()=20ignored=20a=20zero=20K?=
 =?UTF-8?q?ull-i-Shay=E2=80=99=20or=20V=C3=A1=E1=B8=A5id=20given=20for=20a?=
 =?UTF-8?q?=20short=20date?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 badidatetime/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index ee7abc1..bb7ab77 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -644,7 +644,7 @@ class date(BahaiCalendar):
         :returns: A date instance with replaced items.
         :rtype: date
         """
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid is not None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
@@ -2055,7 +2055,7 @@ class datetime(date):
         if fold is None:  # pragma: no cover
             fold = self.fold
 
-        if self.is_short and (kull_i_shay or vahid):
+        if self.is_short and (kull_i_shay is not None or vahid is not None):
             msg = "Cannot convert from a short to a long form date."
             raise ValueError(msg)
         elif (not self.is_short and year is not None and
-- 
2.43.0


From 7c91e1a0459448d49218bea4042d35bcef66e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 26/39] fix: str() of a long form datetime printed an unpadded
 microsecond

---
 badidatetime/datetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index bb7ab77..5dfe268 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2253,7 +2253,7 @@ class datetime(date):
         else:
             ret = self._str_convertion()
             ret += f"{sep}{self.hour:02}:{self.minute:02}:{self.second:02}"
-            ret += f".{self.microsecond}" if self.microsecond else ""
+            ret += f".{self.microsecond:06}" if self.microsecond else ""
             off = self.utcoffset()
             tz = _format_offset(off)
 
-- 
2.43.0


From 81a10d111b7925b4dae3f3c464365ff3b9135039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 27/39] fix: ctime and timetuple of a long form datetime at
 hour 24 moved to the next day

---
 badidatetime/_timedateutils.py | 4 ++--
 badidatetime/datetime.py       | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index ab64f8e..a01391b 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1105,8 +1105,8 @@ class TimeDateUtils(BahaiCalendar):
         if short_in:
             y, m, d, hh, mm, ss = date
         else:
-            # Microsecond (ms) is not used.
-            y, m, d, hh, mm, ss, ms = self.short_date_from_long_date(date)
+            # The time is left out, it must not change the day.
+            y, m, d = self.short_date_from_long_date(date[:5], trim=True)
 
         wday = self._day_of_week(y, m, d)
         dnum = self._days_before_month(y, m) + d
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 5dfe268..acedbc6 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -2157,8 +2157,7 @@ class datetime(date):
         if self.is_short:
             date = self.b_date + self.b_time
         else:
-            d = self._short_from_long_form(time=self.b_time)
-            date = (*d[:3], *d[5:])
+            date = self._short_from_long_form()[:3] + self.b_time
 
         weekday = _td_utils._day_of_week(*date[:3])
         wd_name = _td_utils.DAYNAMES[weekday]
-- 
2.43.0


From d529ce0fd1747826724381e23122d42ec696e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 28/39] fix: %z and tm_gmtoff of an aware value at offset zero
 were those of a naive one

---
 badidatetime/_structures.py    | 3 ++-
 badidatetime/_timedateutils.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index 7e89a55..c542232 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -177,7 +177,8 @@ class struct_time:
                     date[-1] = 0
 
         offset = dt.utcoffset()
-        total_seconds = offset.total_seconds() if offset else None
+        total_seconds = (None if offset is None
+                         else offset.total_seconds())
 
         if tzinfo and hasattr(tzinfo, 'tzname'):
             tm_zone = tzinfo.tzname(dt)
diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index a01391b..89bb2bd 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -803,7 +803,7 @@ class TimeDateUtils(BahaiCalendar):
         """
         st = ""
 
-        if ttup.tm_gmtoff:
+        if ttup.tm_gmtoff is not None:
             n = '-' if ttup.tm_gmtoff < 0 else '+'
             h = abs(ttup.tm_gmtoff / 3600)
             hh = int(h)
-- 
2.43.0


From a979aa5f071835e840616923c4b23747e425c84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 29/39] fix: days of the last supported year could not be made
 from an ordinal or a timestamp

---
 badidatetime/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index e5e87c3..d63b078 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -114,7 +114,7 @@ def init_leap_cache():
     """
     bc = BahaiCalendar
     bc._YEAR_START = BahaiCalendar()._build_badi_year_start()
-    bc._RD_END = bc._YEAR_START[bc.MAXYEAR]
+    bc._RD_END = bc._YEAR_START[bc.MAXYEAR + 1] - 1
 
 
 if BahaiCalendar._YEAR_START is None:
-- 
2.43.0


From f6bd4a0b6e7f216982973b3a33e838ef335a58eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:49 +0000
Subject: [PATCH 30/39] fix: %G printed the calendar year, not the ISO year
 that goes with %V

---
 badidatetime/_timedateutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 89bb2bd..9b3460e 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -440,7 +440,8 @@ class TimeDateUtils(BahaiCalendar):
                  number.
         :rtype: str
         """
-        year = self._get_year(ttup)
+        year = self._year_week_day(self._get_year(ttup), ttup.tm_mon,
+                                   ttup.tm_mday)[0]
         n = '-' if year < 0 else ''
         return f"{n}{abs(year):04}"
 
-- 
2.43.0


From 7a9e2b580f8363e0ff8a15442c9a9810c1c182d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 31/39] fix: strptime took the weekday of %u as counted from 0,
 one day late

---
 badidatetime/_strptime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/badidatetime/_strptime.py b/badidatetime/_strptime.py
index d3ce4c9..7d43730 100644
--- a/badidatetime/_strptime.py
+++ b/badidatetime/_strptime.py
@@ -372,6 +372,11 @@ class StrpTime:
     def start(self):
         found, locale_time = self._find_regex()
         dot_dict = self._parse_found_dict(found, locale_time)
+
+        # %u counts the days of the week from 1, the other directives from 0.
+        if [key for key in found.groupdict() if key in 'Aauw'][-1:] == ['u']:
+            dot_dict.weekday -= 1
+
         self._check_iso_week(dot_dict)
         self._miscellaneous(dot_dict)
         # Always returns a short form Badi date--for now.
-- 
2.43.0


From 1e2a8b041997b31fba8e88be5bd5c1f307f7b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:13 +0000
Subject: [PATCH 32/39] fix: posix_timestamp could not give the last day of a
 year

---
 badidatetime/gregorian_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 19212ff..725d1a9 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -214,7 +214,7 @@ class GregorianCalendar(BaseCalendar):
         while True:
             leap = self._is_leap_year(year)
             diy = 365 + leap
-            if days < diy: break
+            if days <= diy: break
             days -= diy
             year += 1
 
-- 
2.43.0


From 43e53b969886d6394fe3bc8f5138abdd49ae0983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:13 +0000
Subject: [PATCH 33/39] fix: posix_timestamp mirrored the days before 1970 to
 days after it

---
 badidatetime/gregorian_calendar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 725d1a9..6cdff3f 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -208,7 +208,11 @@ class GregorianCalendar(BaseCalendar):
         days = math.floor(t / self._SECONDS_PER_DAY)
         year = 1970
         leap = False
-        days = abs(days) + 1
+        days += 1
+
+        while days < 1:
+            year -= 1
+            days += 365 + self._is_leap_year(year)
 
         # Find the year and remaining number of days.
         while True:
-- 
2.43.0


From 1fdf5c25e2b52d4bf94dbc3705771cafdfac573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 34/39] fix: coordinates without a zone are the ones used by
 fromtimestamp

---
 badidatetime/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index acedbc6..6301dde 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1838,6 +1838,8 @@ class datetime(date):
             lat, lon, zone = LOCAL_COORD
         elif hasattr(tz, "coordinates"):
             lat, lon, zone = tz.coordinates
+            # Without a zone `TZWithCoords` is at UTC.
+            zone = 0 if zone is None else zone
         else:
             # Fallback
             lat, lon, zone = LOCAL_COORD
-- 
2.43.0


From 9624197453489b0bad8067ed4def13fd70d8e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 35/39] fix: whole-number coordinates are not ignored by
 set_local_coordinates

---
 badidatetime/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/badidatetime/__init__.py b/badidatetime/__init__.py
index d63b078..814e72f 100644
--- a/badidatetime/__init__.py
+++ b/badidatetime/__init__.py
@@ -53,8 +53,8 @@ def _get_local_coordinates() -> tuple | None:
     """
     offset, dst, key = _local_timezone_info()
 
-    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], float)
-        and isinstance(_LOCAL_COORDS[1], float)):
+    if (_LOCAL_COORDS and isinstance(_LOCAL_COORDS[0], (int, float))
+        and isinstance(_LOCAL_COORDS[1], (int, float))):
         lat = _LOCAL_COORDS[0]
         lon = _LOCAL_COORDS[1]
     elif _LOCAL_COORDS and _LOCAL_COORDS[2]:
-- 
2.43.0


From 84d963743bcf88716b679f2eccb003ec34f34ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:06 +0000
Subject: [PATCH 36/39] fix: leap days of Julian century years are valid
 historical dates

---
 badidatetime/gregorian_calendar.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 6cdff3f..5ae3a44 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -50,7 +50,8 @@ class GregorianCalendar(BaseCalendar):
               is used. This means date comparisons will be in error if both
               dates do not use the same True or False `exact` keyword.
         """
-        year, month, day = self.date_from_ymdhms(g_date)
+        year, month, day = self.date_from_ymdhms(
+            g_date, historical=not exact)
 
         if exact:  # Astronomically correct algorithm
             td = self._days_in_years(year-1, alt=alt)
@@ -179,7 +180,7 @@ class GregorianCalendar(BaseCalendar):
             date = (year, month, round(day, self._ROUNDING_PLACES))
 
         if hms:
-            date = self.ymdhms_from_date(date, us=us)
+            date = self.ymdhms_from_date(date, us=us, historical=not exact)
 
         return date
 
@@ -266,16 +267,18 @@ class GregorianCalendar(BaseCalendar):
         """
         return self.gregorian_date_from_jd(jd)[0]
 
-    def date_from_ymdhms(self, date: tuple) -> tuple:
+    def date_from_ymdhms(self, date: tuple, *, historical: bool=False
+                         ) -> tuple:
         """
         Convert (year, month, day, hour, minute, second) into a
         (year, month, day.fractional) date.
 
         :param tuple date: A six part date (y, m, d, hh, mm, ss).
+        :param bool historical: If True use the Julian leap year before 1583.
         :returns: The three part (y, m, d.nnn).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date)
+        self._check_valid_gregorian_month_day(date, historical=historical)
         t_len = len(date)
         year = date[0]
         month = date[1]
@@ -287,7 +290,8 @@ class GregorianCalendar(BaseCalendar):
                      self._ROUNDING_PLACES)
         return year, month, day
 
-    def ymdhms_from_date(self, date: tuple, us: bool=False) -> tuple:
+    def ymdhms_from_date(self, date: tuple, us: bool=False, *,
+                         historical: bool=False) -> tuple:
         """
         Convert (year, month, day.fractional) into a
         (year, month, day, hour, minute, second, microseconds).
@@ -296,10 +300,11 @@ class GregorianCalendar(BaseCalendar):
         :param bool us: If `True` return microseconds as separate field from
                         seconds else if `False` (default) return seconds with
                         fractional seconds.
+        :param bool historical: If True use the Julian leap year before 1583.
         :returns: A 6 or 7 part date (y, m, d, hh, mm, ss, us).
         :rtype: tuple
         """
-        self._check_valid_gregorian_month_day(date)
+        self._check_valid_gregorian_month_day(date, historical=historical)
         date_len = len(date)
         year = date[0]
         month = date[1]
-- 
2.43.0


From 104b6587b57f7688020793f8f6c4c573fd4b3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 37/39] fix: seconds of posix_timestamp never round up to 60

---
 badidatetime/gregorian_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 5ae3a44..8c2c925 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -205,7 +205,7 @@ class GregorianCalendar(BaseCalendar):
         :returns: The time of the day corrected for the timezone.
         :rtype: tuple
         """
-        t += zone * 3600
+        t = round(t + zone * 3600, 6)  # So seconds never round up to 60.
         days = math.floor(t / self._SECONDS_PER_DAY)
         year = 1970
         leap = False
-- 
2.43.0


From 16bb756a13a99a1b3cf2d224f63c6ab4410d6c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 38/39] fix: negative and excess fields of a Gregorian date are
 refused

---
 badidatetime/gregorian_calendar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/badidatetime/gregorian_calendar.py b/badidatetime/gregorian_calendar.py
index 8c2c925..3560c9c 100644
--- a/badidatetime/gregorian_calendar.py
+++ b/badidatetime/gregorian_calendar.py
@@ -350,8 +350,8 @@ class GregorianCalendar(BaseCalendar):
         """
         t_len = len(g_date)
         year = g_date[0]
-        month = abs(g_date[1])
-        day = abs(g_date[2])
+        month = g_date[1]
+        day = g_date[2]
         LY = (self._JULIAN_LEAP_YEAR if historical and year < 1583
               else self._is_leap_year)
         hour = g_date[3] if t_len > 3 and g_date[3] is not None else 0
@@ -366,8 +366,9 @@ class GregorianCalendar(BaseCalendar):
         assert 1 <= math.floor(day) <= days, (
             f"Invalid day '{day}' for month '{month}' and year '{year}' "
             f"should be 1 - {days}.")
-        assert hour < 24, f"Invalid hour '{hour}' it must be < 24"
-        assert minute < 60, f"Invalid minute '{minute}' should be < 60."
+        assert 0 <= hour < 24, f"Invalid hour '{hour}' it must be < 24"
+        assert 0 <= minute < 60, f"Invalid minute '{minute}' should be < 60."
+        assert 0 <= second < 60, f"Invalid second '{second}' should be < 60."
 
         if any((hour, minute, second)):
             assert not day % 1, ("If there is a part day then there can be no "
-- 
2.43.0


From b57190af2933343d822961ad2022aecf3d343339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:35 +0000
Subject: [PATCH 39/39] fix: timetuple ignored the fold when it asked the
 timezone

---
 badidatetime/_structures.py    | 12 +++++++-----
 badidatetime/_timedateutils.py |  5 +++--
 badidatetime/datetime.py       |  3 ++-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/badidatetime/_structures.py b/badidatetime/_structures.py
index c542232..6c839b1 100644
--- a/badidatetime/_structures.py
+++ b/badidatetime/_structures.py
@@ -89,13 +89,14 @@ class struct_time:
     Create a structure representing a Badí' date and time.
     """
 
-    def __new__(cls, date: tuple, tzinfo=None):
+    def __new__(cls, date: tuple, tzinfo=None, *, fold: int=0):
         """
         Creates a ShortFormStruct or LongFormStruct NamedTuple.
 
         :param tuple date: A tuple containing the data needed to create
                            a NamedTuple.
         :param tzinfo tzinfo: Timezone information or None.
+        :param int fold: The fold of the time, either 0 or 1.
         :returns: Instance object
         :rtype: ShortFormStruct or LongFormStruct
         """
@@ -110,10 +111,10 @@ class struct_time:
 
         if short:
             inst = ShortFormStruct(
-                *self.__fill_in_missing(date, tzinfo, short))
+                *self.__fill_in_missing(date, tzinfo, short, fold))
         else:
             inst = LongFormStruct(
-                *self.__fill_in_missing(date, tzinfo, short))
+                *self.__fill_in_missing(date, tzinfo, short, fold))
 
         return inst
 
@@ -142,7 +143,7 @@ class struct_time:
         return short
 
     @classmethod
-    def __fill_in_missing(cls, date: tuple, tzinfo, short: bool):
+    def __fill_in_missing(cls, date: tuple, tzinfo, short: bool, fold: int):
         """
         Fill in missing data.
 
@@ -151,6 +152,7 @@ class struct_time:
         :param bool short: If `True` then the date tuple represents a short
                            form Badí' date and time, if `False` date tuple
                            represents a long form Badí' date and time.
+        :param int fold: The fold of the time, either 0 or 1.
         :returns: The updated date tuple.
         :rtype: tuple
         """
@@ -162,7 +164,7 @@ class struct_time:
             b_date = date[:8]
 
         date = list(date)
-        dt = datetime.datetime(*b_date, tzinfo=tzinfo)
+        dt = datetime.datetime(*b_date, tzinfo=tzinfo, fold=fold)
 
         # Build out the tm_isdst, tm_zone and tm_gmtoff.
         if tzinfo:
diff --git a/badidatetime/_timedateutils.py b/badidatetime/_timedateutils.py
index 9b3460e..ca4e8ea 100644
--- a/badidatetime/_timedateutils.py
+++ b/badidatetime/_timedateutils.py
@@ -1090,7 +1090,7 @@ class TimeDateUtils(BahaiCalendar):
         return self.badi_date_from_jd(jd0, short=short, trim=True, rtd=True)
 
     def _build_struct_time(self, date: tuple, dstflag: int, *, tzinfo=None,
-                           short_in: bool=False) -> NamedTuple:
+                           short_in: bool=False, fold: int=0) -> NamedTuple:
         """
         Build either a ShortFormStruct or LongFormStruct struct_time.
 
@@ -1111,7 +1111,8 @@ class TimeDateUtils(BahaiCalendar):
 
         wday = self._day_of_week(y, m, d)
         dnum = self._days_before_month(y, m) + d
-        return struct_time(date + (wday, dnum, dstflag), tzinfo=tzinfo)
+        return struct_time(date + (wday, dnum, dstflag), tzinfo=tzinfo,
+                           fold=fold)
 
     def _isoweek_to_badi(self, year: int, week: int, day: int, *,
                          short: bool=False) -> tuple:
diff --git a/badidatetime/datetime.py b/badidatetime/datetime.py
index 6301dde..cb9883b 100644
--- a/badidatetime/datetime.py
+++ b/badidatetime/datetime.py
@@ -1943,7 +1943,8 @@ class datetime(date):
         """
         date = self.b_date + self.b_time[:3]
         return _td_utils._build_struct_time(date, -1, tzinfo=self.tzinfo,
-                                            short_in=self.is_short)
+                                            short_in=self.is_short,
+                                            fold=self.fold)
 
     def _mktime(self) -> float:
         """
-- 
2.43.0

