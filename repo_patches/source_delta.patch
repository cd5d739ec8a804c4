From e3e14ede55b592e17b6e8f3260d0aa35132ea59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 01/75] fix: match patterns against the whole value

Appending '$' and using re.match let 'a|b' accept 'ax' and let any pattern accept a trailing newline.
---
 soapfish/xsd.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 8078115..305833e 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -152,8 +152,7 @@ class String(SimpleType):
         value = self._clean_whitespace(value)
 
         if self.pattern:
-            pattern = self.pattern + '$'
-            if re.match(pattern, value) is None:
+            if re.fullmatch(self.pattern, value) is None:
                 raise ValueError(f"Value '{value}' doesn't match pattern '{self.pattern}'")
 
         if self.enumeration:
@@ -380,8 +379,7 @@ class Decimal(SimpleType):
             raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            pattern = self.pattern + '$'
-            if re.match(pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, str(value)) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-- 
2.43.0


From a0925691288ff0a2a77f7cc712f6c92a68d7528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 02/75] fix: numeric types honour every declared facet and use
 XSD lexical forms

Facets declared as class attributes were ignored, user facets on the integer
types were overwritten by the built-in range, bounds failed for
decimal.Decimal values and for the strings generated code declares, the sign
counted as a digit, and values were rendered with exponents or as 'True'.
---
 soapfish/xsd.py | 171 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 112 insertions(+), 59 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 305833e..7815d53 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -48,6 +48,7 @@ logger = logging.getLogger(__name__)
 
 NIL = object()
 UNBOUNDED = decimal.Decimal('infinity')
+XML_WHITESPACE = ' \t\r\n'
 
 
 class CallStyle(str, enum.Enum):
@@ -340,75 +341,107 @@ class Time(SimpleType):
 
 
 class Decimal(SimpleType):
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)')
+
+    # To be defined in children.
+    enumeration = None
+    fractionDigits = None
+    maxExclusive = None
+    maxInclusive = None
+    minExclusive = None
+    minInclusive = None
+    pattern = None
+    totalDigits = None
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None,
                  maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None, totalDigits=None):
-        self.enumeration = enumeration
-        self.fractionDigits = fractionDigits
-        self.maxExclusive = maxExclusive
-        self.maxInclusive = maxInclusive
-        self.minExclusive = minExclusive
-        self.minInclusive = minInclusive
-        self.pattern = pattern
-        self.totalDigits = totalDigits
-
-    def _check_restrictions(self, value):
-        if self.enumeration is not None and value not in self.enumeration:
+        # Override static values
+        if enumeration is not None:
+            self.enumeration = enumeration
+        if fractionDigits is not None:
+            self.fractionDigits = fractionDigits
+        if maxExclusive is not None:
+            self.maxExclusive = maxExclusive
+        if maxInclusive is not None:
+            self.maxInclusive = maxInclusive
+        if minExclusive is not None:
+            self.minExclusive = minExclusive
+        if minInclusive is not None:
+            self.minInclusive = minInclusive
+        if pattern is not None:
+            self.pattern = pattern
+        if totalDigits is not None:
+            self.totalDigits = totalDigits
+
+    @staticmethod
+    def _number(value):
+        """Return the number a value (or a facet, which generated code declares as string) stands for."""
+        return decimal.Decimal(value if isinstance(value, (int, decimal.Decimal)) else str(value))
+
+    def _check_restrictions(self, value, text):
+        number = self._number(value)
+
+        if self.enumeration is not None and number not in [self._number(v) for v in self.enumeration]:
             raise ValueError(f'{value} not in enumeration {self.enumeration}')
 
         if self.fractionDigits is not None:
-            strvalue = str(value)
-            if self.fractionDigits == 0:
-                if '.' in strvalue:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
-            else:
-                if '.' not in strvalue:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
-                fr = strvalue.split('.')[1]
-                if len(fr) != self.fractionDigits:
-                    raise ValueError(f'Wrong fraction digits for value {strvalue} allowed {self.fractionDigits}')
-
-        if self.maxExclusive is not None and value >= self.maxExclusive:
-            raise ValueError(f'Value {value} greater or equal to maxExclusive {self.maxExclusive}')
-        if self.maxInclusive is not None and value > self.maxInclusive:
-            raise ValueError(f'Value {value} greater than maxInclusive {self.maxInclusive}')
-        if self.minExclusive is not None and value <= self.minExclusive:
-            raise ValueError(f'Value {value} smaller or equal to minExclusive {self.minExclusive}')
-        if self.minInclusive is not None and value < self.minInclusive:
-            raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
+            fraction = text.partition('.')[2]
+            if len(fraction) != int(self.fractionDigits):
+                raise ValueError(f'Wrong fraction digits for value {text} allowed {self.fractionDigits}')
+
+        if number.is_nan():
+            if any(x is not None for x in (self.maxExclusive, self.maxInclusive, self.minExclusive, self.minInclusive)):
+                raise ValueError(f'Value {value} is not comparable with the bounds.')
+        else:
+            if self.maxExclusive is not None and number >= self._number(self.maxExclusive):
+                raise ValueError(f'Value {value} greater or equal to maxExclusive {self.maxExclusive}')
+            if self.maxInclusive is not None and number > self._number(self.maxInclusive):
+                raise ValueError(f'Value {value} greater than maxInclusive {self.maxInclusive}')
+            if self.minExclusive is not None and number <= self._number(self.minExclusive):
+                raise ValueError(f'Value {value} smaller or equal to minExclusive {self.minExclusive}')
+            if self.minInclusive is not None and number < self._number(self.minInclusive):
+                raise ValueError(f'Value {value} smaller than minInclusive {self.minInclusive}')
 
         if self.pattern is not None:
-            if re.fullmatch(self.pattern, str(value)) is None:
+            if re.fullmatch(self.pattern, text) is None:
                 raise ValueError(f"Value {value} doesn't match pattern {self.pattern}.")
 
         if self.totalDigits is not None:
-            strvalue = str(value)
-            length = len(strvalue)
-            if '.' in strvalue:
-                length -= 1
-            if length > self.totalDigits:
-                raise ValueError(f'Number of total digits of {strvalue} is bigger than {self.totalDigits}.')
+            integer, _, fraction = text.lstrip('+-').partition('.')
+            fraction = fraction.rstrip('0')
+            length = max(len((integer + fraction).lstrip('0')), len(fraction))
+            if length > int(self.totalDigits):
+                raise ValueError(f'Number of total digits of {text} is bigger than {self.totalDigits}.')
 
         return value
 
+    def _parse(self, text):
+        if self.LEXICAL_REGEX.fullmatch(text) is None:
+            raise ValueError(f"Incorrect value '{text}' for {self.__class__.__name__} field.")
+        return int(text) if re.fullmatch(r'[-+]?[0-9]+', text) else float(text)
+
     def accept(self, value):
         if value is None:
             return None
-        elif isinstance(value, decimal.Decimal):
-            value = str(value)
-        elif isinstance(value, (float, int)):
-            pass  # value is just value
         elif isinstance(value, str):
-            value = float(value)
+            text = value.strip(XML_WHITESPACE)
+            value = self._parse(text)
+        elif isinstance(value, (decimal.Decimal, float, int)):
+            if isinstance(value, bool):
+                value = int(value)
+            text = self.xmlvalue(value)
         else:
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
 
-        self._check_restrictions(value)
+        self._check_restrictions(value, text)
         return value
 
     def xmlvalue(self, value):
-        return str(value)
+        number = self._number(value)
+        if not number.is_finite():
+            raise ValueError(f"Incorrect value '{value}' for {self.__class__.__name__} field.")
+        return format(number, 'f')  # an exponent is not allowed
 
     def pythonvalue(self, xmlvalue):
         if xmlvalue == 'nil':
@@ -417,7 +450,21 @@ class Decimal(SimpleType):
             return self.accept(xmlvalue)
 
 
-class Double(Decimal):
+class FloatingPoint(Decimal):
+    """Parent of the types that allow an exponent, infinity and not-a-number."""
+
+    LEXICAL_REGEX = re.compile(r'[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?|-?INF|NaN')
+
+    def xmlvalue(self, value):
+        number = self._number(value)
+        if number.is_nan():
+            return 'NaN'
+        elif number.is_infinite():
+            return 'INF' if number > 0 else '-INF'
+        return str(value)
+
+
+class Double(FloatingPoint):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -426,7 +473,7 @@ class Double(Decimal):
         )
 
 
-class Float(Decimal):
+class Float(FloatingPoint):
     def __init__(self, enumeration=None, maxExclusive=None, maxInclusive=None, minExclusive=None, minInclusive=None,
                  pattern=None):
         super().__init__(
@@ -436,27 +483,33 @@ class Float(Decimal):
 
 
 class Integer(Decimal):
+    LEXICAL_REGEX = re.compile(r'[-+]?[0-9]+')
+
     overrides = {'fractionDigits': 0, 'pattern': r'[-+]?[0-9]+'}
 
     def __init__(self, enumeration=None, fractionDigits=None, maxExclusive=None, maxInclusive=None, minExclusive=None,
                  minInclusive=None, pattern=None, totalDigits=None):
-        facets = {k: v for k, v in locals().items() if k not in {'self', '__class__'}}
+        super().__init__(enumeration, fractionDigits, maxExclusive, maxInclusive, minExclusive, minInclusive, pattern,
+                         totalDigits)
+        limits = {}
         for c in itertools.dropwhile(lambda x: x != Integer, reversed(self.__class__.__mro__)):
-            facets.update(c.overrides)
-        super().__init__(**facets)
+            limits.update(c.overrides)
+        # User defined facets can only restrict the built-in type further.
+        for name, limit in limits.items():
+            facet = getattr(self, name)
+            if facet is not None:
+                if name == 'pattern':
+                    continue
+                elif name == 'minInclusive':
+                    limit = max(limit, facet, key=self._number)
+                elif name == 'maxInclusive':
+                    limit = min(limit, facet, key=self._number)
+            setattr(self, name, limit)
 
     def accept(self, value):
-        if value is None:
-            return None
-        elif isinstance(value, int):
-            pass  # value is just value continue.
-        elif isinstance(value, str):
-            value = int(value)
-        else:
+        if value is not None and not isinstance(value, (int, str)):
             raise ValueError(f"Incorrect value '{value}' for Decimal field.")
-
-        self._check_restrictions(value)
-        return value
+        return super().accept(value)
 
 
 class NonNegativeInteger(Integer):
-- 
2.43.0


From 197301fccc7774fe1b9370e612a244c2093a0b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 03/75] fix: read every lexical form of booleans and store them
 as bool

'1', '0' and surrounding whitespace were refused although valid, and a stored 1 could not be rendered.
---
 soapfish/xsd.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7815d53..b81de14 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -196,8 +196,10 @@ class String(SimpleType):
 
 class Boolean(SimpleType):
     def accept(self, value):
-        if value in [True, False, None]:
-            return value
+        if value is None:
+            return None
+        elif value in [True, False]:
+            return bool(value)
         else:
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
@@ -212,11 +214,14 @@ class Boolean(SimpleType):
             raise ValueError(f"Value '{value}' for class '{self.__class__.__name__}'.")
 
     def pythonvalue(self, value):
-        if value == 'false':
+        if value is None:
+            return None
+        value = value.strip(XML_WHITESPACE)
+        if value in ('false', '0'):
             return False
-        elif value == 'true':
+        elif value in ('true', '1'):
             return True
-        elif value == 'nil' or value is None:
+        elif value == 'nil':
             return None
         else:
             raise ValueError(f'Boolean value error - {value}')
-- 
2.43.0


From bced5c56a450fa7835eb7029bccb5e78719130dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 04/75] fix: render four-digit years and fractional seconds

strftime('%Y') does not pad years before 1000, which gives an invalid lexical
form, and the format strings dropped the fraction of a second silently.
---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index b81de14..0c9ed78 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -251,7 +251,7 @@ class Date(SimpleType):
         raise ValueError(f'Incorrect type value {value!r} for date field.')
 
     def xmlvalue(self, value):
-        timestring_without_tz = value.strftime('%Y-%m-%d')
+        timestring_without_tz = f'{value.year:04d}-{value.month:02d}-{value.day:02d}'
         tz = getattr(value, 'tzinfo', None)
         if not tz:
             return timestring_without_tz
@@ -300,7 +300,7 @@ class DateTime(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%Y-%m-%dT%H:%M:%S')
+        timestring_without_tz = value.replace(tzinfo=None).isoformat()
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
@@ -325,7 +325,7 @@ class Time(SimpleType):
     def xmlvalue(self, value):
         if value is None:
             return 'nil'
-        timestring_without_tz = value.strftime('%H:%M:%S')
+        timestring_without_tz = value.replace(tzinfo=None).isoformat()
         tz = value.tzinfo
         if not tz:
             return timestring_without_tz
-- 
2.43.0


From 2d2ec73718a3ff9613afa6ff58c85209e68e5a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 05/75] fix: read dates and times with surrounding white space,
 refuse negative years

White space around a value is insignificant for these types. A year B.C. was
read as A.D., and a zone offset without minutes failed with a TypeError.
---
 soapfish/xsd.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0c9ed78..a1498ed 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -234,9 +234,8 @@ class Date(SimpleType):
     #   3.2.9.2 Constraining facets
 
     YEAR_MONTH_DAY_REGEX = re.compile(r'''
-        ^(\-)?
-        (?P<year>\d{4,})\-(?P<month>\d{2})\-(?P<day>\d{2})
-        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-9]{2})?))?$''', re.VERBOSE)
+        (?P<year>[0-9]{4,})\-(?P<month>[0-9]{2})\-(?P<day>[0-9]{2})
+        (?P<timezone>Z|((?P<tz_sign>[-+])(?P<tz_hour>[0-9]{2}):?(?P<tz_minute>[0-5][0-9])?))?''', re.VERBOSE)
 
     def accept(self, value):
         if value is None:
@@ -263,7 +262,7 @@ class Date(SimpleType):
         if not isinstance(value, str):
             raise ValueError(f'Expected a string, not {value!r}')
 
-        match = self.YEAR_MONTH_DAY_REGEX.match(value)
+        match = self.YEAR_MONTH_DAY_REGEX.fullmatch(value.strip(XML_WHITESPACE))
         if match is None:
             raise ValueError(f'Unable to parse date string {value!r}')
         year = int(match.group('year'))
@@ -281,7 +280,7 @@ class Date(SimpleType):
 
         sign = 1 if match.group('tz_sign') == '+' else -1
         hours = int(match.group('tz_hour'))
-        minutes = int(match.group('tz_minute'))
+        minutes = int(match.group('tz_minute') or 0)
         return timezone(sign * timedelta(hours=hours, minutes=minutes), name='UTC' + offset)
 
 
@@ -307,7 +306,7 @@ class DateTime(SimpleType):
         return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(value))
 
     def pythonvalue(self, value):
-        return None if value is None or value == 'nil' else iso8601.parse_date(value)
+        return None if value is None or value == 'nil' else iso8601.parse_date(value.strip(XML_WHITESPACE))
 
 
 class Time(SimpleType):
@@ -332,7 +331,7 @@ class Time(SimpleType):
         return timestring_without_tz + timezone_offset_to_string(tz.utcoffset(None))
 
     def pythonvalue(self, value):
-        return None if value is None or value == 'nil' else self._parse(value)
+        return None if value is None or value == 'nil' else self._parse(value.strip(XML_WHITESPACE))
 
     @staticmethod
     def _parse(value):
-- 
2.43.0


From 9d10e0b660f01163eef84dbe8338b9a7cde63c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 06/75] fix: check values however they get into a list

Only append checked type, nillability and maxOccurs; assigning a list to the
field and every other list operation let anything in, and an assigned list was
shared between the objects it was assigned to.
---
 soapfish/xsd.py | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a1498ed..033dcfc 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -806,18 +806,50 @@ class TypedList(list):
         super().__init__()
         self._list = element
 
-    def append(self, value):
+    def _accept(self, value):
         self._list._evaluate_type()
         if value is NIL:
             if not self._list.nillable:
                 raise ValueError('Nil value in not nillable list.')
-            accepted_value = NIL
-        else:
-            accepted_value = self._list._type.accept(value)
-        if self._list._maxOccurs is not None and (len(self) + 1 > self._list._maxOccurs):
+            return NIL
+        return self._list._type.accept(value)
+
+    def _check_length(self, length):
+        if self._list._maxOccurs is not None and length > self._list._maxOccurs:
             raise ValueError(f'You must not add more than {self._list._maxOccurs} items to this list.')
+
+    def append(self, value):
+        accepted_value = self._accept(value)
+        self._check_length(len(self) + 1)
         super().append(accepted_value)
 
+    def insert(self, index, value):
+        accepted_value = self._accept(value)
+        self._check_length(len(self) + 1)
+        super().insert(index, accepted_value)
+
+    def extend(self, values):
+        accepted_values = [self._accept(value) for value in values]
+        self._check_length(len(self) + len(accepted_values))
+        super().extend(accepted_values)
+
+    def __iadd__(self, values):
+        self.extend(values)
+        return self
+
+    def __imul__(self, factor):
+        self._check_length(len(self) * factor)
+        return super().__imul__(factor)
+
+    def __setitem__(self, index, value):
+        if isinstance(index, slice):
+            accepted_value = [self._accept(v) for v in value]
+            if index.step in (None, 1):
+                self._check_length(len(self) - len(self[index]) + len(accepted_value))
+        else:
+            accepted_value = self._accept(value)
+        super().__setitem__(index, accepted_value)
+
 
 class ListElement(Element):
     """
@@ -842,7 +874,12 @@ class ListElement(Element):
         self._minOccurs = minOccurs
 
     def accept(self, value):
-        return value
+        accepted_value = TypedList(self)
+        if isinstance(value, (list, tuple)):
+            accepted_value.extend(value)
+        elif value is not None:
+            raise ValueError(f'Wrong value {value!r}, expected a list of items.')
+        return accepted_value
 
     def empty_value(self):
         return TypedList(self)
-- 
2.43.0


From c415a83c50fe6e446148ddf1b973b78027bf1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 07/75] fix: do not share the lists of a referenced group
 between objects

A shallow copy of the group gave every object the same list.
---
 soapfish/xsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 033dcfc..c0e4244 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -775,7 +775,14 @@ class Ref(Element):
 
     def empty_value(self):
         self._evaluate_type()
-        return copy.copy(self._type)
+        value = copy.copy(self._type)
+        # Lists and nested groups must not be shared between objects.
+        for field in value._meta.all:
+            if isinstance(field, ListElement):
+                setattr(value, field._name, getattr(value, field._name))
+            elif isinstance(field, Ref):
+                setattr(value, field._name, field.empty_value())
+        return value
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-- 
2.43.0


From dde7da7489c4ca61473573260eadaedb3f6251c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 08/75] fix: rendering an unset reference raised AttributeError

It looked up an attribute that does not exist; minOccurs says whether the reference is required.
---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index c0e4244..113b53c 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -786,7 +786,7 @@ class Ref(Element):
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
         if value is None:
-            if self._required:
+            if self._minOccurs:
                 raise ValueError('Value None is not acceptable for required field.')
             else:
                 return
-- 
2.43.0


From 760a399196b07983aba97c2531eb1fc0d88d04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 09/75] fix: read references to complex types from their own
 element

They are rendered with a tag of their own but were parsed from the parent element, so their content was lost.
---
 soapfish/xsd.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 113b53c..e3cafbe 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -800,6 +800,17 @@ class Ref(Element):
         self._type.render(ref_element, value, namespace, elementFormDefault)
         parent.append(ref_element)
 
+    def parse(self, instance, field_name, xmlelement):
+        self._evaluate_type()
+        if not isinstance(self._type, Group):
+            # Unlike groups, other types are wrapped with a tag of their own.
+            subelements = instance._find_subelement(self, xmlelement)
+            if not subelements:
+                setattr(instance, field_name, None)
+                return
+            xmlelement = subelements[0]
+        super().parse(instance, field_name, xmlelement)
+
 
 class Content(Ref):
     """Direct access to element.text. Note that <> will be escaped."""
-- 
2.43.0


From 960c76248b6139d06ec6f446a0969985237c03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 10/75] fix: use the tag name of an attribute when parsing and
 generating an XSD

Rendering already does, so attributes whose name is a Python keyword were lost on the way back.
---
 soapfish/py2xsd.py | 2 +-
 soapfish/xsd.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 320c689..e452f62 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -36,7 +36,7 @@ def get_xsd_type(_type):
 
 def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
-    xsdattr.name = attribute._name
+    xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
     xsdattr.type = get_xsd_type(attribute._type)
     return xsdattr
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index e3cafbe..c9465eb 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -740,7 +740,7 @@ class Attribute(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        xmlvalue = xmlelement.get(field_name)
+        xmlvalue = xmlelement.get(self.tagname or field_name)
         if xmlvalue is None:
             xmlvalue = self.default
         value = self._type.pythonvalue(xmlvalue)
-- 
2.43.0


From 8e7178a56d7e3fd495be1a0da735a8e611e3b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 11/75] fix: ignore comments and processing instructions when
 parsing

A processing instruction raised a TypeError, and text after a comment inside a simple value was dropped.
---
 soapfish/xsd.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index c9465eb..1f54e1b 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -110,7 +110,12 @@ class SimpleType(Type):
         parent.text = self.xmlvalue(value)
 
     def parse_xmlelement(self, xmlelement):
-        return self.pythonvalue(xmlelement.text)
+        text = xmlelement.text
+        # Comments and processing instructions do not end the text.
+        for child in xmlelement:
+            if not isinstance(child.tag, str) and child.tail:
+                text = (text or '') + child.tail
+        return self.pythonvalue(text)
 
     def xmlvalue(self, value):
         raise NotImplementedError
@@ -1056,8 +1061,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         def gettagns(tag):
             """Translate a tag string in a format {namespace} tag to a tuple (namespace, tag)."""
             return tag[1:].split('}', 1) if tag[0] == '{' else (None, tag)
-        if isinstance(xmlelement, etree._Comment):
-            return False
+        if not isinstance(xmlelement.tag, str):
+            return False  # comment or processing instruction
         ns, tag = gettagns(xmlelement.tag)
         return tag == field._name or tag == field.tagname
 
-- 
2.43.0


From d981e51f7e9d3009e4be819663fd04a9bf5a0e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 12/75] fix: recognise xsi:nil by its boolean value

xsi:nil="1" was ignored for elements, and xsi:nil="false" made list items nil.
---
 soapfish/xsd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 1f54e1b..0515ee7 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -593,6 +593,10 @@ def import_type(type_name):
     return getattr(module, name)
 
 
+def is_nil(xmlelement):
+    return xmlelement.get(f'{{{ns.xsi}}}nil', '').strip(XML_WHITESPACE) in ('true', '1')
+
+
 class Element:
     """
     Basic building block, represents an XML element that can appear 0 or 1 times that should be rendered as subelement.
@@ -680,7 +684,7 @@ class Element:
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') == 'true' else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         setattr(instance, field_name, value)
 
     def __repr__(self):
@@ -932,7 +936,7 @@ class ListElement(Element):
 
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
-        value = NIL if xmlelement.get(f'{{{ns.xsi}}}nil') else self._type.parse_xmlelement(xmlelement)
+        value = NIL if is_nil(xmlelement) else self._type.parse_xmlelement(xmlelement)
         _list = getattr(instance, field_name)
         _list.append(value)
 
-- 
2.43.0


From ed5fbb1781025901ecb1f3acd19af702a4305704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:49 +0000
Subject: [PATCH 13/75] fix: Document.parsexml returns a document instead of
 modifying the class

It replaced the field of the class by the parsed value and returned None.
---
 soapfish/xsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0515ee7..7be95f8 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1173,7 +1173,9 @@ class Document(ComplexType):
     def parsexml(cls, xml):
         field = cls._meta.fields[0]  # The only field.
         xmlelement = etree.fromstring(xml)
-        field.parse(cls, field._name, xmlelement)
+        instance = cls()
+        field.parse(instance, field._name, xmlelement)
+        return instance
 
 
 class List(SimpleType):
-- 
2.43.0


From 1a4fd2dcbc02f987b29c28ce85171d1ec20f1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 14/75] fix: a field with a tag name of its own matches only
 that tag

Elements whose tag equals the Python name of another field were read into that field, too.
---
 soapfish/xsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7be95f8..905e73a 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1068,7 +1068,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):
             return False  # comment or processing instruction
         ns, tag = gettagns(xmlelement.tag)
-        return tag == field._name or tag == field.tagname
+        return tag == (field.tagname or field._name)
 
     @classmethod
     def _find_subelement(cls, field, xmlelement):
-- 
2.43.0


From 2f7a91e4ba231f0e7974919e2cc465e9bdb175b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 15/75] fix: parse the chosen element of a choice inside its
 parent

Only an element that is itself the chosen one was recognised, so every field of a parsed choice type was None.
---
 soapfish/xsd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 905e73a..96ba646 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1081,7 +1081,11 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         for attribute in instance._meta.attributes:
             attribute.parse(instance, attribute._name, xmlelement)
 
-        is_choice = (instance._meta.cls.INDICATOR == Choice)
+        # The element may contain the chosen one or be the chosen one itself.
+        is_choice = (
+            instance._meta.cls.INDICATOR == Choice
+            and not any(cls._find_subelement(field, xmlelement) for field in instance._meta.fields)
+        )
         for field in instance._meta.fields:
             if is_choice:
                 if not cls._is_matching_element(field, xmlelement):
-- 
2.43.0


From 99d4ccdebde054b49951fe404950a50409b4c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:06 +0000
Subject: [PATCH 16/75] fix: enforce string length limits of zero

---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 96ba646..a9a69f7 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -165,15 +165,15 @@ class String(SimpleType):
             if not (value in self.enumeration):
                 raise ValueError(f"Value '{value}' not in list {self.enumeration}.")
 
-        if self.length:
+        if self.length is not None:
             if len(value) != self.length:
                 raise ValueError(f"Value '{value}' length {self.length} expected.")
 
-        if self.minLength:
+        if self.minLength is not None:
             if len(value) < self.minLength:
                 raise ValueError(f"Value '{value}' minLength {self.minLength} expected.")
 
-        if self.maxLength:
+        if self.maxLength is not None:
             if len(value) > self.maxLength:
                 raise ValueError(f"Value '{value}' maxLength {self.maxLength} expected.")
 
-- 
2.43.0


From 50e3ceb6ac9ad7af4967f43123cc7ba83c4e8768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 17/75] fix: collapse white space as XSD defines it

Leading and trailing white space was kept, and characters that are no XML white space were replaced.
---
 soapfish/xsd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index a9a69f7..e83e339 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -191,10 +191,10 @@ class String(SimpleType):
             pass
         elif self.whiteSpace == 'replace':
             # replace line feeds, tabs, spaces, and carriage returns with whitespaces
-            value = re.sub(r'[\t\r\n\s]', ' ', value)
+            value = re.sub(r'[\t\r\n]', ' ', value)
         elif self.whiteSpace == 'collapse':
-            # clean line feeds, tabs, spaces, and carriage returns with one whitespace
-            value = re.sub(r'[\t\r\n\s]+', ' ', value)
+            # clean line feeds, tabs, spaces, and carriage returns with one whitespace, none at the ends
+            value = re.sub(r'[ \t\r\n]+', ' ', value).strip(' ')
 
         return value
 
-- 
2.43.0


From 104bf7a127c44c8d6620fb338dc0ce629c50ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 18/75] fix: generate an XSD for models with attributes

name, ref, type and use of an attribute declaration were all required, but name
and ref exclude each other, so generating an XSD (and a dispatcher) failed for
every model with an attribute.
---
 soapfish/xsdspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soapfish/xsdspec.py b/soapfish/xsdspec.py
index da64a39..d1a72ea 100644
--- a/soapfish/xsdspec.py
+++ b/soapfish/xsdspec.py
@@ -79,10 +79,10 @@ class Sequence(xsd.ComplexType):
 
 class Attribute(xsd.ComplexType):
     NAMESPACE = ns.xsd
-    name = xsd.Attribute(xsd.String)
-    ref = xsd.Attribute(xsd.String)
-    type = xsd.Attribute(xsd.String)
-    use = xsd.Attribute(xsd.String)
+    name = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    ref = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    type = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
+    use = xsd.Attribute(xsd.String, use=xsd.Use.OPTIONAL)
     simpleType = xsd.Element(SimpleType, minOccurs=0)
 
 
-- 
2.43.0


From ba3d14786bb3010d7b4e01285758d800b496cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 19/75] fix: put every facet of a type into the generated XSD

Zero-valued and string length facets, enumerations of numeric types, facets of
attributes and most facets of named simple types were missing, and in-place
complex types of nested elements became invalid simple types.
---
 soapfish/py2xsd.py | 96 +++++++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 49 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index e452f62..c4bdd4f 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -20,6 +20,11 @@ STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType,
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
+FACETS = [
+    'enumeration', 'pattern', 'minInclusive', 'minExclusive', 'maxExclusive', 'maxInclusive', 'fractionDigits',
+    'totalDigits', 'length', 'minLength', 'maxLength', 'whiteSpace',
+]
+
 
 logger = logging.getLogger('soapfish')
 
@@ -38,7 +43,7 @@ def xsd_attribute(attribute):
     xsdattr = xsdspec.Attribute()
     xsdattr.name = attribute.tagname or attribute._name
     xsdattr.use = attribute.use
-    xsdattr.type = get_xsd_type(attribute._type)
+    set_xsd_type(xsdattr, attribute)
     return xsdattr
 
 
@@ -50,43 +55,48 @@ def create_xsd_element(element):
     if hasattr(element, '_maxOccurs'):
         xsd_element.maxOccurs = element._maxOccurs
 
-    # SimpleType defined in place.
-    parent_type = element._type.__class__.__bases__[0]
-    _type = element._type
-
-    if not inspect.isclass(element._passed_type):
-        xsd_element.simpleType = xsdspec.SimpleType()
-        xsd_element.simpleType.restriction = xsdspec.Restriction()
-        xsd_element.simpleType.restriction.base = get_xsd_type(element._type)
-
-        if hasattr(element._type, 'enumeration') and element._type.enumeration and parent_type == xsd.SimpleType:
-            for value in element._type.enumeration:
-                enum = xsdspec.Enumeration.create(value)
-                xsd_element.simpleType.restriction.enumerations.append(enum)
-
-        if hasattr(_type, 'fractionDigits') and _type.fractionDigits:
-            xsd_element.simpleType.restriction.fractionDigits = xsdspec.RestrictionValue(value=str(_type.fractionDigits))
-
-        if hasattr(_type, 'pattern') and _type.pattern:
-            xsd_element.simpleType.restriction.pattern = xsdspec.Pattern(value=str(_type.pattern))
-
-        if hasattr(_type, 'minInclusive') and _type.minInclusive:
-            xsd_element.simpleType.restriction.minInclusive = xsdspec.RestrictionValue(value=str(_type.minInclusive))
-
-        if hasattr(_type, 'minExclusive') and _type.minExclusive:
-            xsd_element.simpleType.restriction.minExclusive = xsdspec.RestrictionValue(value=str(_type.minExclusive))
-
-        if hasattr(_type, 'maxExclusive') and _type.maxExclusive:
-            xsd_element.simpleType.restriction.maxExclusive = xsdspec.RestrictionValue(value=str(_type.maxExclusive))
+    set_xsd_type(xsd_element, element)
+    return xsd_element
 
-        if hasattr(_type, 'maxInclusive') and _type.maxInclusive:
-            xsd_element.simpleType.restriction.maxInclusive = xsdspec.RestrictionValue(value=str(_type.maxInclusive))
 
-        if hasattr(_type, 'totalDigits') and _type.totalDigits:
-            xsd_element.simpleType.restriction.totalDigits = xsdspec.RestrictionValue(value=str(_type.totalDigits))
+def xsd_restriction(_type, base):
+    """Return the restriction that makes the type base (an instance) the type _type (an instance)."""
+    restriction = xsdspec.Restriction()
+    restriction.base = get_xsd_type(base)
+
+    facets = {}
+    for name in FACETS:
+        value = getattr(_type, name, None)
+        if value is not None and value != getattr(base, name, None):
+            facets[name] = value
+
+    # Only one lower and one upper bound are allowed.
+    if 'minInclusive' in facets and 'minExclusive' in facets:
+        loose = 'minInclusive' if facets['minExclusive'] >= facets['minInclusive'] else 'minExclusive'
+        del facets[loose]
+    if 'maxInclusive' in facets and 'maxExclusive' in facets:
+        loose = 'maxInclusive' if facets['maxExclusive'] <= facets['maxInclusive'] else 'maxExclusive'
+        del facets[loose]
+
+    for value in facets.pop('enumeration', ()):
+        value = value if isinstance(value, str) else _type.xmlvalue(value)
+        restriction.enumerations.append(xsdspec.Enumeration.create(value))
+    if 'pattern' in facets:
+        restriction.pattern = xsdspec.Pattern(value=str(facets.pop('pattern')))
+    for name, value in facets.items():
+        setattr(restriction, name, xsdspec.RestrictionValue(value=str(value)))
+    return restriction
+
+
+def set_xsd_type(xsd_item, item):
+    """Refer to the type of an element or attribute, or define it in place if an instance was passed."""
+    if inspect.isclass(item._passed_type) or isinstance(item._passed_type, str):
+        xsd_item.type = get_xsd_type(item._type)
+    elif isinstance(item._type, xsd.ComplexType):
+        xsd_item.complexType = xsd_complexType(item._type.__class__, named=False)
     else:
-        xsd_element.type = get_xsd_type(element._type)
-    return xsd_element
+        xsd_item.simpleType = xsdspec.SimpleType()
+        xsd_item.simpleType.restriction = xsd_restriction(item._type, item._type.__class__())
 
 
 def xsd_complexType(complexType, named=True):
@@ -124,16 +134,7 @@ def xsd_complexType(complexType, named=True):
 def xsd_simpleType(st):
     xsd_simpleType = xsdspec.SimpleType()
     xsd_simpleType.name = uncapitalize(st.__name__)
-    xsd_restriction = xsdspec.Restriction()
-    xsd_restriction.base = get_xsd_type(st.__bases__[0]())
-    if hasattr(st, 'enumeration') and st.enumeration:
-        for enum in st.enumeration:
-            xsd_restriction.enumerations.append(xsdspec.Enumeration.create(enum))
-    if hasattr(st, 'fractionDigits') and st.fractionDigits:
-        xsd_restriction.fractionDigits = xsdspec.RestrictionValue(value=st.fractionDigits)
-    elif hasattr(st, 'pattern') and st.pattern:
-        xsd_restriction.pattern = xsdspec.Pattern(value=st.pattern)
-    xsd_simpleType.restriction = xsd_restriction
+    xsd_simpleType.restriction = xsd_restriction(st(), st.__bases__[0]())
     return xsd_simpleType
 
 
@@ -185,10 +186,7 @@ def generate_elements(xsd_schema, schema):
             value = element.substitutionGroup
             xsd_element.substitutionGroup = value if value.startswith('sns:') else f'sns:{value}'
 
-        if isinstance(element._passed_type, str) or inspect.isclass(element._passed_type):
-            xsd_element.type = get_xsd_type(element._type)
-        else:
-            xsd_element.complexType = xsd_complexType(element._type.__class__, named=False)
+        set_xsd_type(xsd_element, element)
 
         xsd_schema.elements.append(xsd_element)
 
-- 
2.43.0


From fbf100eed015b84c59cd91c1950aff6705ecf63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 20/75] fix: generate XSD names for all built-in types

positiveInteger and its relatives and NMTOKEN(S) were taken for types of the user's schema.
---
 soapfish/py2xsd.py | 7 +++++--
 soapfish/utils.py  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index c4bdd4f..fdde233 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -13,10 +13,13 @@ from .utils import uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
-    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte,
+    xsd.UnsignedShort, xsd.Double, xsd.Float, xsd.Byte, xsd.NonNegativeInteger, xsd.NonPositiveInteger,
+    xsd.NegativeInteger, xsd.PositiveInteger,
 ]
 
-STRING_TYPES = [xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration]
+STRING_TYPES = [
+    xsd.QName, xsd.AnyURI, xsd.Base64Binary, xsd.QName, xsd.AnyType, xsd.Duration, xsd.NMTOKEN, xsd.NMTOKENS,
+]
 
 ALL_TYPES = NUMERIC_TYPES + STRING_TYPES
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index fe387ce..47e9477 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -42,7 +42,7 @@ def remove_namespace(qname):
 
 
 def uncapitalize(value):
-    return value if value == 'QName' else value[0].lower() + value[1:]
+    return value if value in ('QName', 'NMTOKEN', 'NMTOKENS') else value[0].lower() + value[1:]
 
 
 def schema_name(obj, location=None):
-- 
2.43.0


From 0683bfa3ec425600dc248ad03b76d3cc8d603638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 21/75] fix: lists without limits allow any number of items in
 the generated XSD

Leaving out minOccurs and maxOccurs there means exactly one.
---
 soapfish/py2xsd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index fdde233..dd5ce7d 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -55,8 +55,10 @@ def create_xsd_element(element):
     xsd_element.name = element.tagname if element.tagname else element._name
     xsd_element.nillable = element.nillable
     xsd_element.minOccurs = element._minOccurs
-    if hasattr(element, '_maxOccurs'):
-        xsd_element.maxOccurs = element._maxOccurs
+    if isinstance(element, xsd.ListElement):
+        # Unlike in an XSD the number of items is not limited by default.
+        xsd_element.minOccurs = element._minOccurs or 0
+        xsd_element.maxOccurs = xsd.UNBOUNDED if element._maxOccurs is None else element._maxOccurs
 
     set_xsd_type(xsd_element, element)
     return xsd_element
-- 
2.43.0


From 9f05a904e8bdc190eedf294745bd0e93c1ce5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:58 +0000
Subject: [PATCH 22/75] fix: use the HTTP status code given to a response

SOAPResponse ignored http_status_code, so that bad requests and unknown
schemas were answered with status 200.
---
 soapfish/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index d15a3df..9e1e6be 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -18,7 +18,7 @@ class SOAPResponse:
     def __init__(self, soap_body, soap_header=None, http_status_code=200, http_content=None, http_headers=None):
         self.soap_header = soap_header
         self.soap_body = soap_body
-        self.http_status_code = 200
+        self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
 
-- 
2.43.0


From 502ddf33eba1e154a05fa4174cdcabd161d06dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 23/75] fix: call the xsd-response hook for schema requests

The wsdl-response hook was called instead.
---
 soapfish/soap_dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index b31f38d..dfd019f 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -230,7 +230,7 @@ class SOAPDispatcher:
         else:
             response = SOAPResponse('xsd', http_content=xsd, http_headers={'Content-Type': 'text/xml'})
 
-        return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
+        return self._call_hook('xsd-response', dispatcher=self, request=request, response=response)
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-- 
2.43.0


From 81c4f61eab9bc24a1a138b10828c95708eece434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 24/75] fix: find the SOAP action of WSGI requests

WSGI servers pass the SOAPAction header as HTTP_SOAPACTION, which was only
looked up in the Django adapter. The action was ignored everywhere else.
---
 soapfish/soap11.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 2357533..326ba6f 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -10,12 +10,11 @@ NAME = 'soap11'
 
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
-    if request.environ.get('SOAPACTION'):
-        return request.environ.get('SOAPACTION').replace('"', '')
-    elif request.environ.get('ACTION'):
-        return request.environ.get('ACTION').replace('"', '')
-    else:
-        return None
+    # Servers pass HTTP headers on with a prefix (PEP 3333).
+    for name in ('SOAPACTION', 'HTTP_SOAPACTION', 'ACTION', 'HTTP_ACTION'):
+        if request.environ.get(name):
+            return request.environ.get(name).replace('"', '')
+    return None
 
 
 def build_http_request_headers(soapAction):
-- 
2.43.0


From 60062f49e2f8f3c778e6a3f3ef016764ecbabac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:36 +0000
Subject: [PATCH 25/75] fix: ignore comments around the body entry and refuse
 empty bodies

The first node of the body was taken for the body entry. A comment before the
entry broke routing and parsing, an empty body raised an IndexError.
---
 soapfish/soap11.py        | 7 +++++--
 soapfish/soap_dispatch.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 326ba6f..7a48aaf 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -1,5 +1,7 @@
 import enum
 
+from lxml import etree
+
 from . import namespaces as ns, xsd
 
 ENVELOPE_NAMESPACE = ns.soap11_envelope
@@ -56,10 +58,11 @@ class Body(xsd.ComplexType):
     Fault = xsd.Element(Fault, minOccurs=0)
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement[0])
+        return ContentType.parse_xmlelement(self.content())
 
     def content(self):
-        return self._xmlelement[0]
+        # Comments and processing instructions are not body entries.
+        return next(self._xmlelement.iterchildren(etree.Element), None)
 
 
 class Envelope(xsd.ComplexType):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index dfd019f..887aa27 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -71,7 +71,7 @@ class SOAPDispatcher:
         # specs (according to my interpretation):
         # SOAP 1.1: http://schemas.xmlsoap.org/soap/envelope/
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
-        if envelope.Body is None:
+        if envelope.Body is None or envelope.Body.content() is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
         return envelope
 
-- 
2.43.0


From d6f03c13fd4ff1747586d9a80c4bc2a63dd9df97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 26/75] fix: refuse messages that are no SOAP envelope of the
 service's version

Neither the name nor the namespace of the envelope was checked.
---
 soapfish/soap_dispatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 887aa27..c9ef076 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -73,6 +73,9 @@ class SOAPDispatcher:
         # SOAP 1.2: http://www.w3.org/2003/05/soap-envelope/
         if envelope.Body is None or envelope.Body.content() is None:
             raise SOAPError(SOAP.Code.CLIENT, 'Missing SOAP body')
+        for name, element in (('Envelope', envelope._xmlelement), ('Body', envelope.Body._xmlelement)):
+            if element.tag != f'{{{SOAP.ENVELOPE_NAMESPACE}}}{name}':
+                raise SOAPError(SOAP.Code.CLIENT, f'Invalid SOAP {name.lower()}: {element.tag}')
         return envelope
 
     def _find_handler_for_request(self, request, body):
-- 
2.43.0


From 2d953297e93edb5b8004f78623a6694497416ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 27/75] fix: answer with a client fault where unusual messages
 raised exceptions

These were comments and processing instructions in the header, a nil header,
nil elements in the envelope, and values that are valid but cannot be
represented in Python, such as years beyond 9999.
---
 soapfish/soap_dispatch.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index c9ef076..01b2e12 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -6,7 +6,7 @@ from urllib.parse import parse_qs
 
 from lxml import etree
 
-from . import py2wsdl, py2xsd, wsa
+from . import py2wsdl, py2xsd, wsa, xsd
 from .core import SOAPError, SOAPRequest, SOAPResponse
 from .utils import uncapitalize, walk_schema_tree
 
@@ -63,7 +63,7 @@ class SOAPDispatcher:
         try:
             # note : no validation is performed
             envelope = SOAP.Envelope.parsexml(xml)
-        except etree.XMLSyntaxError as e:
+        except (etree.XMLSyntaxError, ValueError) as e:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
         # Actually this is more a stopgap measure than a real fix. The real
         # fix is to change SOAP.Envelope/ComplexType so it raises some kind of
@@ -76,6 +76,8 @@ class SOAPDispatcher:
         for name, element in (('Envelope', envelope._xmlelement), ('Body', envelope.Body._xmlelement)):
             if element.tag != f'{{{SOAP.ENVELOPE_NAMESPACE}}}{name}':
                 raise SOAPError(SOAP.Code.CLIENT, f'Invalid SOAP {name.lower()}: {element.tag}')
+        if envelope.Header is xsd.NIL:
+            envelope.Header = None
         return envelope
 
     def _find_handler_for_request(self, request, body):
@@ -132,8 +134,8 @@ class SOAPDispatcher:
     def _validate_header(self, soap_header):
         if soap_header is None:
             return
-        for children in soap_header._xmlelement.getchildren():
-            namespace = children.nsmap.get(children.prefix)
+        for children in soap_header._xmlelement.iterchildren(etree.Element):
+            namespace = etree.QName(children).namespace
             if namespace == wsa.NAMESPACE:
                 wsa.XML_SCHEMA.assertValid(children)
             else:
@@ -163,8 +165,12 @@ class SOAPDispatcher:
             raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
         request.method = self._find_handler_for_request(request, soap_body)
-        request.soap_header = self._parse_header(request.method, soap_header)
-        request.soap_body = self._parse_input(request.method, soap_body)
+        try:
+            request.soap_header = self._parse_header(request.method, soap_header)
+            request.soap_body = self._parse_input(request.method, soap_body)
+        except ValueError as e:
+            # Not every value allowed in a schema can be represented in Python.
+            raise SOAPError(SOAP.Code.CLIENT, f'{e.__class__.__name__}: {e}') from e
 
     def dispatch(self, request):
         request_method = request.environ.get('REQUEST_METHOD', '')
-- 
2.43.0


From 929b6f8a8601cffbb11d081f8eb39de798e4d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 28/75] fix: answer with a client fault if no operation takes
 the body entry

An AttributeError was raised for elements without substitution group.
---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 01b2e12..adf0a47 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -103,7 +103,8 @@ class SOAPDispatcher:
             try:
                 # FIXME: Improve handling of namespaces to be less hacky...
                 e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                return next(m for m in self.service.methods if m.input == e.substitutionGroup.split(':')[-1])
+                head = e.substitutionGroup.split(':')[-1] if e.substitutionGroup else None
+                return next(m for m in self.service.methods if head and m.input == head)
             except StopIteration as e:
                 raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
 
-- 
2.43.0


From 77c92524197ec974a34afb7a00987e9a823e5287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:48 +0000
Subject: [PATCH 29/75] fix: deliver responses without an output element

Responses of operations whose output is a class, and responses given by a
middleware before an operation was found, raised an AttributeError.
---
 soapfish/soap_dispatch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index adf0a47..18e5dff 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -207,13 +207,12 @@ class SOAPDispatcher:
             response.http_content = SOAP.get_error_response(error.code, error.message, header=response.soap_header)
             response.http_status_code = 500
         else:
-            tagname = uncapitalize(response.soap_body.__class__.__name__)
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if isinstance(request.method.output, str):
+            if request.method is not None and isinstance(request.method.output, str):
                 tagname = request.method.output
             else:
-                tagname = uncapitalize(response.content.__class__.__name__)
+                tagname = uncapitalize(response.soap_body.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
 
         return self._call_hook('soap-response', dispatcher=self, request=request, response=response)
-- 
2.43.0


From 6fbf301f6219f832b41b5a4c3b7d28d2901eccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 30/75] fix: answer with a fault whatever the message of an
 exception contains

Control characters in the message made rendering the fault raise an exception.
---
 soapfish/soap_dispatch.py | 5 +++--
 soapfish/utils.py         | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 18e5dff..5edf538 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -8,7 +8,7 @@ from lxml import etree
 
 from . import py2wsdl, py2xsd, wsa, xsd
 from .core import SOAPError, SOAPRequest, SOAPResponse
-from .utils import uncapitalize, walk_schema_tree
+from .utils import replace_control_characters, uncapitalize, walk_schema_tree
 
 __all__ = ['SOAPDispatcher']
 
@@ -204,7 +204,8 @@ class SOAPDispatcher:
 
         if isinstance(response.soap_body, SOAPError):
             error = response.soap_body
-            response.http_content = SOAP.get_error_response(error.code, error.message, header=response.soap_header)
+            message = replace_control_characters(error.message)
+            response.http_content = SOAP.get_error_response(error.code, message, header=response.soap_header)
             response.http_status_code = 500
         else:
             # self._validate_response(response.soap_body, tagname)
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 47e9477..9dbd3d8 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -45,6 +45,13 @@ def uncapitalize(value):
     return value if value in ('QName', 'NMTOKEN', 'NMTOKENS') else value[0].lower() + value[1:]
 
 
+def replace_control_characters(value):
+    """Replace the characters that must not appear in an XML document."""
+    if not isinstance(value, str):
+        return value
+    return re.sub('[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]', '\ufffd', value)
+
+
 def schema_name(obj, location=None):
     from . import xsdspec
 
-- 
2.43.0


From 055d4369982df44585bb73afdc675e86f389f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 31/75] fix: return bytes from the WSGI application

Bad requests and unknown schemas were answered with str, which WSGI servers
refuse.
---
 soapfish/soap_dispatch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 5edf538..c98cf34 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -266,4 +266,5 @@ class WsgiSoapApplication:
         soap_request = SOAPRequest(req_env, content)
         response = self.dispatcher.dispatch(soap_request)
         start_response(response.http_status_text, list(response.http_headers.items()))
-        return [response.http_content]
+        content = response.http_content
+        return [content.encode() if isinstance(content, str) else content]
-- 
2.43.0


From 188d54f43ba6f1047d49ac344c5fdfd1ea68c161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 32/75] fix: read the body of Flask requests whatever their
 content type

Flask leaves the data of requests empty if they are declared to be a form.
---
 soapfish/flask_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/flask_.py b/soapfish/flask_.py
index 3c6894f..9480883 100644
--- a/soapfish/flask_.py
+++ b/soapfish/flask_.py
@@ -8,7 +8,7 @@ def flask_dispatcher(service, **dispatcher_kwargs):
     from flask import request, Response
 
     def flask_dispatch():
-        soap_request = SOAPRequest(request.environ, request.data)
+        soap_request = SOAPRequest(request.environ, request.get_data())
         soap_request._original_request = request
         soap_dispatcher = SOAPDispatcher(service, **dispatcher_kwargs)
         soap_response = soap_dispatcher.dispatch(soap_request)
-- 
2.43.0


From 067316c854f2cb372047765717f3b5b80a10d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 33/75] fix: put the scheme of the request into the WSDL in all
 adapters

The scheme was lost in the Django adapter, and the forwarded one was only
looked up there.
---
 soapfish/django_.py       | 4 ++--
 soapfish/soap_dispatch.py | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/soapfish/django_.py b/soapfish/django_.py
index 3b413cc..b70e09c 100644
--- a/soapfish/django_.py
+++ b/soapfish/django_.py
@@ -9,8 +9,8 @@ class DjangoEnvironWrapper:
         self.environ = environ
 
     def get(self, name, default=None):
-        name = name.replace('-', '_').upper()
-        for key in (name, 'HTTP_' + name):
+        header = name.replace('-', '_').upper()
+        for key in (name, header, 'HTTP_' + header):
             if key in self.environ:
                 return self.environ[key]
         return default
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index c98cf34..656dfc0 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -220,7 +220,9 @@ class SOAPDispatcher:
 
     def handle_wsdl_request(self, request):
         request = self._call_hook('wsdl-request', dispatcher=self, request=request)
-        scheme = request.environ.get('X_FORWARDED_PROTO', request.environ.get('wsgi.url_scheme', 'http'))
+        environ = request.environ
+        scheme = (environ.get('X_FORWARDED_PROTO') or environ.get('HTTP_X_FORWARDED_PROTO')
+                  or environ.get('wsgi.url_scheme', 'http'))
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-- 
2.43.0


From 16828b2375b03a0b9ef0f944ad6e4f9b8e6cd314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 34/75] fix: validate messages of services with several schemas

Creating a dispatcher for a service with more than one schema failed, and
imported schemas without location were never loaded.
---
 soapfish/py2xsd.py | 52 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index dd5ce7d..e146264 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -2,6 +2,7 @@
 
 import argparse
 import inspect
+import itertools
 import logging
 import sys
 from importlib.machinery import SourceFileLoader
@@ -214,6 +215,50 @@ def generate_xsd(schema):
     return xmlelement
 
 
+def combine_schemas(schemas, documents):
+    """
+    Return an XSD document that covers all schemas.
+
+    Documents it refers to are added to documents (location: content).
+    """
+    # Nothing else leads to an imported schema without location.
+    schemas = list(schemas)
+    pending, seen = list(schemas), list(schemas)
+    while pending:
+        schema = pending.pop()
+        for item in itertools.chain(schema.imports, schema.includes):
+            if not any(item is s for s in seen):
+                seen.append(item)
+                pending.append(item)
+                if not item.location:
+                    schemas.append(item)
+
+    if len(schemas) == 1:
+        return etree.tostring(generate_xsd(schemas[0]))
+
+    def document(namespace, tag, references):
+        root = etree.Element(f'{{{ns.xsd}}}schema', nsmap={'xsd': ns.xsd}, targetNamespace=namespace)
+        for attributes in references:
+            etree.SubElement(root, f'{{{ns.xsd}}}{tag}', **attributes)
+        return etree.tostring(root)
+
+    locations = {}
+    for n, schema in enumerate(schemas):
+        location = schema.location or f'urn:soapfish:schema:{n}'
+        documents[location] = etree.tostring(generate_xsd(schema))
+        locations.setdefault(schema.targetNamespace, []).append(location)
+
+    # A namespace can be imported only once.
+    imports = []
+    for n, (namespace, items) in enumerate(locations.items()):
+        location = items[0]
+        if len(items) > 1:
+            location = f'urn:soapfish:namespace:{n}'
+            documents[location] = document(namespace, 'include', [{'schemaLocation': x} for x in items])
+        imports.append({'namespace': namespace, 'schemaLocation': location})
+    return document('urn:soapfish', 'import', imports)
+
+
 def schema_validator(schemas):
     """
     Return a callable for the specified soapfish schemas which can be used to validate (etree) xml documents.
@@ -225,9 +270,12 @@ def schema_validator(schemas):
         def __init__(self, schemas, *args, **kwargs):
             super().__init__(*args, **kwargs)
             self.lookup = walk_schema_tree(schemas, lambda x: x)
+            self.documents = {}
 
         def resolve(self, url, id_, context):
-            if url in self.lookup:
+            if url in self.documents:
+                return self.resolve_string(self.documents[url], context)
+            elif url in self.lookup:
                 schema_string = etree.tostring(generate_xsd(self.lookup[url]))
                 return self.resolve_string(schema_string, context)
             # prevent unwanted network access
@@ -250,7 +298,7 @@ def schema_validator(schemas):
     # Also having shared resolvers is not a good idea because a user might want
     # to have different validator instances at the same time (possibly with
     # conflicting namespace urls).
-    schema_xml = b''.join(etree.tostring(generate_xsd(s)) for s in schemas)
+    schema_xml = combine_schemas(schemas, resolver.documents)
     schema_element = etree.fromstring(schema_xml, parser)
     xml_schema = etree.XMLSchema(schema_element)
     return xml_schema.assertValid
-- 
2.43.0


From 788f9cf36c2e213bd29c64e93160f84175619434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 35/75] fix: serve every schema at the location its references
 name

Locations were not quoted, so that schemas with a query string, or with the
placeholders of generated code, could not be fetched. References without
location raised a KeyError.
---
 soapfish/soap_dispatch.py |  5 +++--
 soapfish/utils.py         | 13 ++++++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 656dfc0..ccf45bd 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -2,7 +2,7 @@ import functools
 import logging
 import re
 import string
-from urllib.parse import parse_qs
+from urllib.parse import parse_qs, quote
 
 from lxml import etree
 
@@ -246,7 +246,8 @@ class SOAPDispatcher:
 
     def _rewrite_locations(self, element):
         for e in element.xpath('//xsd:import|//xsd:include', namespaces=element.nsmap):
-            e.attrib['schemaLocation'] = '?xsd=%s' % e.attrib['schemaLocation']
+            if 'schemaLocation' in e.attrib:
+                e.attrib['schemaLocation'] = '?xsd=%s' % quote(e.attrib['schemaLocation'], safe='/:')
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 9dbd3d8..d0b37a0 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -187,14 +187,21 @@ def find_xsd_namespaces(xml):
     return {k for k, v in nsmap.items() if v in (ns.xsd, ns.xsd2000)}
 
 
-def walk_schema_tree(schemas, callback, seen=None):
+def walk_schema_tree(schemas, callback, seen=None, unlocated=None):
     if seen is None:
         seen = {}
+    if unlocated is None:
+        unlocated = []
     for schema in schemas:
         for item in itertools.chain(schema.imports, schema.includes):
-            if item.location not in seen:
+            if not item.location:
+                # cannot be referred to, but may in turn refer to others.
+                if not any(item is x for x in unlocated):
+                    unlocated.append(item)
+                    walk_schema_tree([item], callback, seen, unlocated)
+            elif item.location not in seen:
                 seen[item.location] = callback(item)
-                walk_schema_tree([item], callback, seen)
+                walk_schema_tree([item], callback, seen, unlocated)
     return seen
 
 
-- 
2.43.0


From ff595f4f9a23534d9f98e5458cb94f9ef3723670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 36/75] fix: define schemas before the schemas that import them

Reordering stopped after as many steps as there are schemas, and waited for
namespaces that are not part of the WSDL.
---
 soapfish/wsdl2py.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1e3f323..74c2cee 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import collections
 import logging
 import os
 import sys
@@ -18,18 +17,17 @@ logger = logging.getLogger('soapfish')
 
 # --- Helpers -----------------------------------------------------------------
 def reorder_schemas(schemas):
-    schemas, targets, counter, x = [], set(), len(schemas), collections.deque(schemas)
-    while x and counter > 0:
-        counter -= 1
-        schema = x.popleft()
-        ns = {i.namespace for i in schema.imports}
-        if x and ns and ns - targets:
-            x.append(schema)
+    """Reorder schemas so that each one follows those that it imports, as far as that is possible."""
+    pending, ordered = list(schemas), []
+    while pending:
+        targets = {s.targetNamespace for s in pending}
+        for n, schema in enumerate(pending):
+            if not {i.namespace for i in schema.imports} & (targets - {schema.targetNamespace}):
+                break
         else:
-            schemas.append(schema)
-            targets.add(schema.targetNamespace)
-    schemas.extend(x)  # always add remaining unorderable schemas...
-    return schemas
+            n = 0  # schemas import each other
+        ordered.append(pending.pop(n))
+    return ordered
 
 
 def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
-- 
2.43.0


From aa8b32c37ecec0a2f75c3523e4e4629cc22994a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 37/75] fix: define the base of a type before the type

Complex types were sorted with an inconsistent order, simple types not at all,
so that the generated code could not be imported, depending on the order of
declarations.
---
 soapfish/xsd2py.py | 59 ++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index f8aee95..920dd19 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -1,7 +1,6 @@
 #!/usr/bin/env python
 
 import argparse
-import functools
 import itertools
 import logging
 import os
@@ -11,7 +10,7 @@ from urllib.parse import urljoin
 from lxml import etree
 
 from . import xsdspec
-from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
+from .utils import find_xsd_namespaces, get_rendering_environment, open_document, remove_namespace, resolve_location
 
 logger = logging.getLogger('soapfish')
 
@@ -77,44 +76,35 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
     return code.encode(encoding) if encoding else code
 
 
+def _reorder_types(types, get_base):
+    """Reorder types to render the base of an extension/restriction before the types derived from it."""
+    by_name = {remove_namespace(t.name): t for t in types}
+    ordered = {}
+    for _type in types:
+        chain = []
+        name = remove_namespace(_type.name)
+        while name in by_name and name not in ordered and name not in chain:
+            chain.append(name)
+            name = remove_namespace(get_base(by_name[name]))
+        for name in reversed(chain):
+            ordered[name] = by_name[name]
+    return list(ordered.values())
+
+
 def _reorder_complexTypes(schema):
-    """Reorder complexTypes to render base extension/restriction elements render before the children."""
-    weights = {}
-    for n, complex_type in enumerate(schema.complexTypes):
+    def get_base(complex_type):
         content = complex_type.complexContent
-        if content:
-            extension = content.extension
-            restriction = content.restriction
-            if extension:
-                base = extension.base
-            elif restriction:
-                base = restriction.base
-        else:
-            base = ''
+        derivation = content and (content.extension or content.restriction)
+        return derivation.base if derivation else None
 
-        weights[complex_type.name] = (n, base)
+    schema.complexTypes = _reorder_types(schema.complexTypes, get_base)
 
-    def _cmp(a, b):
-        a = getattr(a, 'name', a)
-        b = getattr(b, 'name', b)
 
-        w_a, base_a = weights[a]
-        w_b, base_b = weights[b]
-        # a and b are not extension/restriction
-        if not base_a and not base_b:
-            return w_a - w_b
-        is_extension = lambda obj, base: obj == base
-        has_namespace = lambda base: ':' in base
-        # a is a extension/restriction of b: a > b
-        if is_extension(b, base_a) or has_namespace(base_a):
-            return 1
-        # b is a extension/restriction of a: a < b
-        elif is_extension(a, base_b) or has_namespace(base_b):
-            return -1
-        # inconclusive, do the same test with their bases
-        return _cmp(base_a or a, base_b or b)
+def _reorder_simpleTypes(schema):
+    def get_base(simple_type):
+        return simple_type.restriction.base if simple_type.restriction else None
 
-    schema.complexTypes.sort(key=functools.cmp_to_key(_cmp))
+    schema.simpleTypes = _reorder_types(schema.simpleTypes, get_base)
 
 
 def schema_to_py(schema, xsd_namespaces,
@@ -126,6 +116,7 @@ def schema_to_py(schema, xsd_namespaces,
     if base_path:
         rewrite_paths(schema, cwd, base_path)
 
+    _reorder_simpleTypes(schema)
     _reorder_complexTypes(schema)
 
     if known_paths is None:
-- 
2.43.0


From 041478aa7a879d561fa42514127575cc750ab225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 38/75] fix: generate code for all facets, attributes, choices
 and inline types

Named types lost their length and digit facets, inline ones their occurrence
limits, nillable and keyword names. Classes without a sequence ended up with
inconsistent indentation or without fields. Lists that an XSD requires to have
an item were generated without a lower limit.
---
 soapfish/templates/lib.jinja2 | 83 ++++++++++++-----------------------
 soapfish/utils.py             | 20 +++++++++
 2 files changed, 48 insertions(+), 55 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index 555aca6..dd9d620 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -23,7 +23,7 @@ Schema_{{ schema_name(schema) }} = xsd.Schema(
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     groups=[{% for g in schema.groups %}{{ g.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     complexTypes=[{% for ct in schema.complexTypes %}{{ ct.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
+    elements={{ '{' }}{% for e in schema.elements %}'{{ e.name }}': xsd.Element({% if e.type %}{{ e|type(known_types) }}{% elif e.simpleType %}{{ render_xsd_inline_Restriction(e.simpleType.restriction, known_types) }}{% else %}{{ e.name|capitalize }}(){% endif %}{% if e.substitutionGroup %}, substitutionGroup="{{ e.substitutionGroup }}"{% endif %}){% if not loop.last %}, {% endif %}{% endfor %}{{ '}' }},
 )
 {%- if location %}
 {# [blank line] #}
@@ -44,8 +44,9 @@ class {{ name|capitalize }}(xsd.List):
 {% macro render_xsd_AttributeGroup(attrGroup, known_types=None) -%}
 class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
     {%- for attribute in attrGroup.attributes %}
-    {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ render_xsd_Attribute(attribute, known_types) }}
+    {%- else %}
+    pass
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -54,8 +55,9 @@ class {{ attrGroup.name|capitalize }}(xsd.AttributeGroup):
 {% macro render_xsd_Group(group, known_types=None) -%}
 class {{ group.name|capitalize }}(xsd.Group):
     {%- for element in group.sequence.elements %}
-    {%- set name = element.ref|remove_namespace if element.ref else element.name %}
-    {{ name|fix_keyword }} = xsd.Element({{ element|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %})
+    {{- render_xsd_element(element, known_types) }}
+    {%- else %}
+    pass
     {%- endfor %}
 {# [blank line] #}
 {# [blank line] #}
@@ -63,51 +65,41 @@ class {{ group.name|capitalize }}(xsd.Group):
 
 {% macro render_xsd_Restriction(name, restriction, known_types=None) -%}
 class {{ name|capitalize }}({{ restriction|type(known_types) }}):
-{%- if restriction.enumerations %}
-    enumeration = [{% for enum in restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}]
-{%- endif %}
-{%- if restriction.pattern %}
-    pattern = r'{{ restriction.pattern.value }}'
-{%- endif %}
-{%- if restriction.minInclusive %}
-    minInclusive = r'{{ restriction.minInclusive.value }}'
-{%- elif restriction.minExclusive %}
-    minExclusive = r'{{ restriction.minExclusive.value }}'
-{%- endif %}
-{%- if restriction.maxInclusive %}
-    maxInclusive = r'{{ restriction.maxInclusive.value }}'
-{%- elif restriction.maxExclusive %}
-    maxExclusive = r'{{ restriction.maxExclusive.value }}'
-{%- endif %}
-{%- if not restriction.enumerations and not restriction.pattern
-        and not restriction.minInclusive and not restriction.minExclusive
-        and not restriction.maxInclusive and not restriction.maxExclusive %}
+{%- set facets = restriction|facets %}
+{%- for facet, value in facets %}
+    {{ facet }} = {{ value }}
+{%- endfor %}
+{%- if not facets %}
     pass
 {%- endif %}
 {# [blank line] #}
 {# [blank line] #}
 {%- endmacro %}
 
+{% macro render_xsd_inline_Restriction(restriction, known_types=None) -%}
+{{ restriction|type(known_types) }}({% for facet, value in restriction|facets %}{{ facet }}={{ value }}{% if not loop.last %}, {% endif %}{% endfor %})
+{%- endmacro %}
+
+{% macro render_xsd_Attribute(attribute, known_types=None) -%}
+{%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name -%}
+{{ name|fix_keyword }} = xsd.Attribute({% if attribute.simpleType %}{{ render_xsd_inline_Restriction(attribute.simpleType.restriction, known_types) }}{% else %}{{ attribute|type(known_types) }}{% endif %}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+{%- endmacro %}
+
 {% macro render_complexType(class_name, content, known_types=None) -%}
 {%- set ct = content %}
-{%- if not ct.sequence and not ct.complexContent %}
-class {{ class_name|capitalize }}(xsd.ComplexType):
-    pass
-{%- endif %}
 {%- if ct.complexContent %}
     {%- if ct.complexContent.restriction %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.restriction|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.RESTRICTION
     {%- set content = ct.complexContent.restriction %}
     {%- else %}
-class {{ ct.name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
+class {{ class_name|capitalize }}({{ ct.complexContent.extension|type(known_types) }}):
     INHERITANCE = xsd.Inheritance.EXTENSION
     {%- set content = ct.complexContent.extension %}
     {%- endif %}
-{%- elif ct.sequence %}
+{%- else %}
 class {{ class_name|capitalize }}(xsd.ComplexType):
     INHERITANCE = None
-    {%- set content = ct %}
 {%- endif %}
 {%- if content.sequence %}
     INDICATOR = xsd.Sequence
@@ -120,8 +112,7 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     {%- set elements = content.choice.elements %}
 {%- endif %}
 {%- for attribute in content.attributes %}
-    {%- set name = attribute.ref|remove_namespace if attribute.ref else attribute.name %}
-    {{ name|fix_keyword }} = xsd.Attribute({{ attribute|type(known_types) }}{% if name in keywords %}, tagname='{{ name }}'{% endif %}, use={{ attribute.use|default('optional', true)|use }})
+    {{ render_xsd_Attribute(attribute, known_types) }}
 {%- endfor %}
 {%- for attrGroupRef in content.attributeGroups %}
     {{ attrGroupRef.ref|remove_namespace }} = xsd.Ref({{ attrGroupRef.ref|type(known_types) }})
@@ -137,27 +128,9 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
 {%- endmacro %}
 
 {% macro render_xsd_element(element, known_types=None) -%}
-    {%- set field_type = 'ListElement' if element.maxOccurs and element.maxOccurs > 1 else 'Element' %}
-    {%- if element.type %}
-    {{ element.name|fix_keyword }} = xsd.{{ field_type }}({{ element|type(known_types) }}{% if element.name in keywords or element.maxOccurs and element.maxOccurs > 1 %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none %}, minOccurs={{ element.minOccurs|upper }}{% endif %}{% if element.maxOccurs and element.maxOccurs > 1 %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
-    {%- endif %}
-    {%- if element.simpleType %}
-    {{ element.name|fix_keyword }} = xsd.Element({{ element.simpleType.restriction|type(known_types) }}(
-    {%- if element.simpleType.restriction.enumerations -%}
-    enumeration=[{% for enum in element.simpleType.restriction.enumerations %}'{{ enum.value }}'{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- endif %}
-    {%- if element.name in keywords %}tagname='{{ element.name }}',{% endif %}
-    {%- if element.simpleType.restriction.minInclusive %}minInclusive={{ element.simpleType.restriction.minInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxInclusive %}maxInclusive={{ element.simpleType.restriction.maxInclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.minExclusive %}minExclusive={{ element.simpleType.restriction.minExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxExclusive %}maxExclusive={{ element.simpleType.restriction.maxExclusive.value }},{% endif %}
-    {%- if element.simpleType.restriction.fractionDigits %}fractionDigits={{ element.simpleType.restriction.fractionDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.totalDigits %}totalDigits={{ element.simpleType.restriction.totalDigits.value }},{% endif %}
-    {%- if element.simpleType.restriction.pattern %}pattern=r'{{ element.simpleType.restriction.pattern.value }}',{% endif %}
-    {%- if element.simpleType.restriction.length %}length={{ element.simpleType.restriction.length.value }},{% endif %}
-    {%- if element.simpleType.restriction.minLength %}minLength={{ element.simpleType.restriction.minLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.maxLength %}maxLength={{ element.simpleType.restriction.maxLength.value }},{% endif %}
-    {%- if element.simpleType.restriction.whiteSpace %}whiteSpace={{ element.simpleType.restriction.whiteSpace.value }},{% endif %}))
+    {%- set is_list = element.maxOccurs and element.maxOccurs > 1 %}
+    {%- if element.type or element.simpleType %}
+    {{ element.name|fix_keyword }} = xsd.{{ 'ListElement' if is_list else 'Element' }}({% if element.type %}{{ element|type(known_types) }}{% else %}{{ render_xsd_inline_Restriction(element.simpleType.restriction, known_types) }}{% endif %}{% if element.name in keywords or is_list %}, tagname='{{ element.name }}'{% endif %}{% if element.minOccurs is not none or is_list %}, minOccurs={{ element.minOccurs if element.minOccurs is not none else 1 }}{% endif %}{% if is_list %}, maxOccurs={{ element.maxOccurs|max_occurs }}{% endif %}{% if element.nillable %}, nillable=True{% endif %})
     {%- endif %}
     {%- if element.ref %}
     {{ element.ref|remove_namespace }} = xsd.Ref({{ element|type(known_types) }})
diff --git a/soapfish/utils.py b/soapfish/utils.py
index d0b37a0..e74704e 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -149,6 +149,25 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         else:
             return f"__name__ + '.{name}'"
 
+    def facets(restriction):
+        """Return the name and the Python code of the value for each facet."""
+        code = []
+        if restriction.enumerations:
+            code.append(('enumeration', repr([x.value for x in restriction.enumerations])))
+        if restriction.pattern:
+            pattern = restriction.pattern.value
+            raw = "'" not in pattern and '\n' not in pattern and not pattern.endswith('\\')
+            code.append(('pattern', f"r'{pattern}'" if raw else repr(pattern)))
+        for name in ('minInclusive', 'minExclusive', 'maxInclusive', 'maxExclusive', 'whiteSpace'):
+            facet = getattr(restriction, name)
+            if facet:
+                code.append((name, repr(facet.value)))
+        for name in ('totalDigits', 'fractionDigits', 'length', 'minLength', 'maxLength'):
+            facet = getattr(restriction, name)
+            if facet:
+                code.append((name, str(int(facet.value))))
+        return code
+
     keywords = set(keyword.kwlist)
 
     env = Environment(
@@ -157,6 +176,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.filters.update(
         capitalize=capitalize,
+        facets=facets,
         fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
         remove_namespace=remove_namespace,
-- 
2.43.0


From dde377dccb1048b1c233e80c26385dc988b11b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 39/75] fix: resolve the locations in imported WSDL documents

Imports were resolved against the directory of the previous import, schema
locations against that of the main document, and schemas referred to twice
were generated twice.
---
 soapfish/wsdl2py.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 74c2cee..3316824 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -4,13 +4,14 @@ import argparse
 import logging
 import os
 import sys
+from urllib.parse import urljoin
 
 from lxml import etree
 
 from .soap import SOAPVersion
 from .utils import find_xsd_namespaces, get_rendering_environment, open_document, resolve_location
 from .wsdl import get_wsdl_classes
-from .xsd2py import schema_to_py
+from .xsd2py import rewrite_paths, schema_to_py
 
 logger = logging.getLogger('soapfish')
 
@@ -30,7 +31,7 @@ def reorder_schemas(schemas):
     return ordered
 
 
-def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
+def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None, base_path=None):
 
     def deduplicate(seq):
         seen = set()
@@ -39,8 +40,15 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
     if seen is None:
         seen = set()
 
+    if base_path is None:
+        base_path = cwd
+
     for i in definitions.imports:
-        path, cwd, location = resolve_location(i.location, cwd)
+        path, import_cwd, location = resolve_location(i.location, cwd)
+        if '://' in path:
+            import_cwd = urljoin(path, '.')
+        else:
+            path = os.path.normpath(path)
 
         if path in seen:
             continue
@@ -54,8 +62,12 @@ def merge_imports(wsdl, definitions, xsd_namespaces, cwd=None, seen=None):
 
         imported = wsdl.Definitions.parse_xmlelement(xml)
 
+        if imported.types:
+            for schema in imported.types.schemas:
+                rewrite_paths(schema, import_cwd, base_path)
+
         if imported.imports:
-            merge_imports(wsdl, imported, xsd_namespaces, cwd=cwd, seen=seen)
+            merge_imports(wsdl, imported, xsd_namespaces, cwd=import_cwd, seen=seen, base_path=base_path)
 
         if imported.types and imported.types.schemas:
             if not definitions.types:
@@ -85,7 +97,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     definitions = wsdl.Definitions.parse_xmlelement(xml)
     merge_imports(wsdl, definitions, xsd_namespaces, cwd=cwd)
 
-    kw = {'cwd': cwd, 'parent_namespace': definitions.targetNamespace}
+    kw = {'cwd': cwd, 'known_paths': [], 'parent_namespace': definitions.targetNamespace}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
-- 
2.43.0


From f9bc203ea08a9b087e4873baf93a34185616b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 40/75] fix: refer to imported schemas by their location

Of two imported schemas with the same namespace the second was used twice.
---
 soapfish/templates/lib.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index dd9d620..af02ced 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -13,7 +13,7 @@
 
 {% macro render_Schema(schema, location, known_types=None) -%}
 Schema_{{ schema_name(schema) }} = xsd.Schema(
-    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
+    imports=[{% for i in schema.imports %}Schema_{{ schema_name(i, i.schemaLocation) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     targetNamespace='{{ schema.targetNamespace }}',
     {%- if location %}
-- 
2.43.0


From 88e33416b7d6b69dcabf3b794ce9f6ff6fa5e24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 41/75] fix: use the SOAP version of each binding in generated
 code

All services of a WSDL got version 1.2 if one binding of the main document was
for SOAP 1.2, or version 1.1 if the bindings were imported.
---
 soapfish/templates/wsdl.jinja2 | 2 +-
 soapfish/wsdl2py.py            | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 5476ef5..6e8f9f5 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -111,7 +111,7 @@ class {{ _om.name }}Headers(BaseHeader):
     targetNamespace='{{ definitions.targetNamespace }}',
     location='{{ port.address.location|url_template }}',
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    {%- if soap_version.NAME == 'soap11' %}
+    {%- if get_soap_version(binding).NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
     {%- else %}
     version=soap.SOAPVersion.SOAP12,
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 3316824..1cc8b5a 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -101,11 +101,15 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
     schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
 
+    def get_soap_version(binding):
+        # The bindings of a document may be for different versions.
+        return SOAPVersion.get_version(etree.QName(binding.binding._xmlelement).namespace)
+
     env = get_rendering_environment(xsd_namespaces, module='soapfish.wsdl2py')
+    env.globals.update(get_soap_version=get_soap_version)
     tpl = env.get_template('wsdl.jinja2')
 
     code = tpl.render(
-        soap_version=soap_version,
         definitions=definitions,
         schemas=schemas,
         is_server=bool(target == 'server'),
-- 
2.43.0


From 2fc1385eba856684b10f9eb03e1295d78b497539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 42/75] fix: generate valid code for messages with a type or
 named like a keyword

The generated functions had None or a keyword as parameter.
---
 soapfish/templates/wsdl.jinja2 | 8 ++++----
 soapfish/utils.py              | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 6e8f9f5..db2fbf4 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,9 +28,9 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part.element|remove_namespace }}):
+def {{ operation.name }}(request, {{ _im.part|part_name }}):
     # TODO: Put your implementation here.
-    return {{ _om.part.element|remove_namespace }}
+    return {{ _om.part|part_name }}
 {# [blank line] #}
 {# [blank line] #}
 {%- endfor %}
@@ -144,8 +144,8 @@ class {{ port.name }}ServiceStub(soap.Stub):
     HOST = '{{ port.address.location|url_component('netloc') }}'
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part.element|remove_namespace }}, header=None):
-        return self.call('{{ operation.name}}', {{ _im.part.element|remove_namespace }}, header=header)
+    def {{ operation.name }}(self, {{ _im.part|part_name }}, header=None):
+        return self.call('{{ operation.name}}', {{ _im.part|part_name }}, header=header)
 {% endfor %}
 {%- endif %}
 {%- endfor %}{# ports #}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index e74704e..2e9f220 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -170,6 +170,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 
     keywords = set(keyword.kwlist)
 
+    def fix_keyword(value):
+        return f'_{value}' if str(value) in keywords else str(value)
+
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
         loader=PackageLoader('soapfish', 'templates'),
@@ -177,8 +180,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     env.filters.update(
         capitalize=capitalize,
         facets=facets,
-        fix_keyword=lambda x: f'_{x}' if str(x) in keywords else str(x),
+        fix_keyword=fix_keyword,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
+        part_name=lambda x: fix_keyword(remove_namespace(x.element) or x.name),
         remove_namespace=remove_namespace,
         type=get_type,
         url_component=url_component,
-- 
2.43.0


From 3495abc1f52b6e750622074875b924cf59eb979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 43/75] fix: send the headers of generated code under the name
 of their element

The name of the message part was used instead, and elements used for several
parts were modified by each one.
---
 soapfish/templates/wsdl.jinja2 | 8 ++++----
 soapfish/xsd.py                | 8 ++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index db2fbf4..c6eb743 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -49,9 +49,9 @@ class {{ _im.name }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}').as_field('{{ part.element|remove_namespace }}')
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
@@ -61,9 +61,9 @@ class {{ _om.name }}Headers(BaseHeader):
     SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}').as_field('{{ part.element|remove_namespace }}')
     {%- else -%}
-    {{ part.name }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
+    {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
     {%- endfor %}
 {# [blank line] #}
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index e83e339..45bcfd8 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -642,6 +642,14 @@ class Element:
             else:
                 self._type = self._passed_type()
 
+    def as_field(self, tagname):
+        """Return a field for this element of a schema, which may have any number of fields with any name."""
+        field = copy.copy(self)
+        field.tagname = tagname
+        field._creation_number = Element._creation_counter
+        Element._creation_counter += 1
+        return field
+
     def empty_value(self):
         """
         Empty value used when a new object is constructed for a field.
-- 
2.43.0


From 45577a66b022965748720421a1f886eacf9fdadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 44/75] fix: render the content of header entries in the form
 of its schema

---
 soapfish/soap11.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 7a48aaf..454deaf 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -44,7 +44,20 @@ class Header(xsd.ComplexType):
         return ContentType.parse_xmlelement(self._xmlelement)
 
     def render(self, parent, instance, namespace=None, elementFormDefault=None):
-        return super().render(parent, instance, instance.SCHEMA.targetNamespace, elementFormDefault)
+        # Only the entries are always qualified, what they contain follows the form of its schema.
+        schema = instance.SCHEMA
+        for field in instance._meta.all:
+            entries = etree.Element('entries')
+            field.render(
+                parent=entries,
+                field_name=field.tagname or field._name,
+                value=getattr(instance, field._name),
+                namespace=namespace,
+                elementFormDefault=schema.elementFormDefault if schema else elementFormDefault)
+            for entry in list(entries):
+                if etree.QName(entry).namespace is None:
+                    entry.tag = etree.QName(field.namespace or namespace, entry.tag)
+                parent.append(entry)
 
 
 class Fault(xsd.ComplexType):
-- 
2.43.0


From 4ea9e9370c86b1ba3bdba1a9ac45e24e4990ba51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 45/75] fix: models that contain themselves can be used

---
 soapfish/xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 45bcfd8..d7cb121 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -664,6 +664,8 @@ class Element:
 
     def accept(self, value):
         """Check if the value correct from type defined in constructions."""
+        if value is None:
+            return None  # The type is not needed, it may be the type this field belongs to.
         self._evaluate_type()
         if value is NIL:
             if self.nillable:
-- 
2.43.0


From e5cd293c25d94d6498af2f0334a4c5d3b8c491bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 46/75] fix: render choices with an unchosen list that must not
 be empty

---
 soapfish/xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index d7cb121..3d85c92 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1048,6 +1048,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if self.SCHEMA:
             namespace = self.SCHEMA.targetNamespace
         for field in instance._meta.all:
+            if self.INDICATOR == Choice and isinstance(field, ListElement) and not getattr(instance, field._name):
+                continue  # not the chosen one, its minOccurs does not matter
             field.render(
                 parent=parent,
                 field_name=field.tagname or field._name,
-- 
2.43.0


From fe127b1b1677a7393f1eeeec7d6bbdba15f22033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 47/75] fix: generate code for fields named like a type

---
 soapfish/templates/lib.jinja2 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index af02ced..ab13e66 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -111,6 +111,9 @@ class {{ class_name|capitalize }}(xsd.ComplexType):
     INDICATOR = xsd.Choice
     {%- set elements = content.choice.elements %}
 {%- endif %}
+{#- In the body of a class its fields hide the types of the same name. #}
+{%- set fields = content.attributes|map(attribute='name')|list + elements|default([])|map(attribute='name')|list %}
+{%- set known_types = known_types|reject('in', fields)|list %}
 {%- for attribute in content.attributes %}
     {{ render_xsd_Attribute(attribute, known_types) }}
 {%- endfor %}
-- 
2.43.0


From b32cc0b427d0ecfbcc9f0e533a77a9d09f74c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 48/75] fix: write the types of attributes that were not used
 yet

The XSD of an anonymous root type referred to 'noneType'.
---
 soapfish/py2xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index e146264..ba38dfa 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -96,6 +96,8 @@ def xsd_restriction(_type, base):
 
 def set_xsd_type(xsd_item, item):
     """Refer to the type of an element or attribute, or define it in place if an instance was passed."""
+    if item._type is None:
+        item._evaluate_type()
     if inspect.isclass(item._passed_type) or isinstance(item._passed_type, str):
         xsd_item.type = get_xsd_type(item._type)
     elif isinstance(item._type, xsd.ComplexType):
-- 
2.43.0


From 7023c167a5c5d0ad1138ab5a163ed4a7d31dcc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:57 +0000
Subject: [PATCH 49/75] fix: name base classes of other schemas in generated
 code

A type derived from a type of another inline schema of a WSDL got a string as base class.
---
 soapfish/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index 2e9f220..e682dc0 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -146,6 +146,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             return f'xsd.{name}'
         elif known_types is not None and name in known_types:
             return str(name)
+        elif isinstance(obj, (xsdspec.Extension, xsdspec.Restriction)):
+            # A base class cannot be looked up later.
+            return str(name)
         else:
             return f"__name__ + '.{name}'"
 
-- 
2.43.0


From a52c8115de5cdae689f64b9eb220e8ba2fa04849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:30 +0000
Subject: [PATCH 50/75] fix: tell the XSD prefixes of inline schemas apart

Each schema of a WSDL may bind the same prefix to another namespace.
---
 soapfish/utils.py   | 2 +-
 soapfish/wsdl2py.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index e682dc0..d5b697d 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -209,7 +209,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
 # --- Other Functions ---------------------------------------------------------
 def find_xsd_namespaces(xml):
     nsmap = xml.nsmap.copy()
-    for x in xml.xpath('//*[local-name()="schema"]'):
+    for x in xml.xpath('descendant-or-self::*[local-name()="schema"]'):
         nsmap.update(x.nsmap)
     return {k for k, v in nsmap.items() if v in (ns.xsd, ns.xsd2000)}
 
diff --git a/soapfish/wsdl2py.py b/soapfish/wsdl2py.py
index 1cc8b5a..7a323a7 100644
--- a/soapfish/wsdl2py.py
+++ b/soapfish/wsdl2py.py
@@ -99,7 +99,7 @@ def generate_code_from_wsdl(xml, target, use_wsa=False, encoding='utf8', cwd=Non
 
     kw = {'cwd': cwd, 'known_paths': [], 'parent_namespace': definitions.targetNamespace}
     schemas = reorder_schemas(definitions.types.schemas) if definitions.types else []
-    schemas = ''.join(schema_to_py(schema, xsd_namespaces, **kw) for schema in schemas)
+    schemas = ''.join(schema_to_py(schema, find_xsd_namespaces(schema._xmlelement), **kw) for schema in schemas)
 
     def get_soap_version(binding):
         # The bindings of a document may be for different versions.
-- 
2.43.0


From de582a893dc75ada5948fea7bbe54440cf5764d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 51/75] fix: included schemas without target namespace take
 that of the including one

---
 soapfish/xsd2py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/xsd2py.py b/soapfish/xsd2py.py
index 920dd19..bf1fe8a 100644
--- a/soapfish/xsd2py.py
+++ b/soapfish/xsd2py.py
@@ -70,7 +70,7 @@ def generate_code_from_xsd(xml, known_paths=None, known_types=None,
         return ''
 
     code = schema_to_py(schema, xsd_namespaces, known_paths, known_types,
-                        location, cwd=cwd, base_path=base_path,
+                        location, parent_namespace, cwd=cwd, base_path=base_path,
                         standalone=standalone)
 
     return code.encode(encoding) if encoding else code
-- 
2.43.0


From 0de0ada82e1db52290b3135512d6b3d5198e6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:05 +0000
Subject: [PATCH 52/75] fix: operations without SOAP action have none in
 generated code

They got the action 'None'.
---
 soapfish/templates/wsdl.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index c6eb743..9d2d59e 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -71,7 +71,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction }}',
+    soapAction='{{ operation.operation.soapAction or '' }}',
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input='{{ _im.part.element|remove_namespace }}',
-- 
2.43.0


From ef8858b403a7743d35a960e81905d2f05740846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 53/75] fix: operations may be named like a Python keyword

---
 soapfish/templates/wsdl.jinja2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 9d2d59e..ef67fd5 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,7 +28,7 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name }}(request, {{ _im.part|part_name }}):
+def {{ operation.name|fix_keyword }}(request, {{ _im.part|part_name }}):
     # TODO: Put your implementation here.
     return {{ _om.part|part_name }}
 {# [blank line] #}
@@ -69,7 +69,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {%- endif %}
 {{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name }},
+    {% if is_server %}function={{ operation.name|fix_keyword }},
     {% endif -%}
     soapAction='{{ operation.operation.soapAction or '' }}',
     {%- if _im.parts -%}
@@ -144,7 +144,7 @@ class {{ port.name }}ServiceStub(soap.Stub):
     HOST = '{{ port.address.location|url_component('netloc') }}'
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name }}(self, {{ _im.part|part_name }}, header=None):
+    def {{ operation.name|fix_keyword }}(self, {{ _im.part|part_name }}, header=None):
         return self.call('{{ operation.name}}', {{ _im.part|part_name }}, header=header)
 {% endfor %}
 {%- endif %}
-- 
2.43.0


From 8c8f5190620160341d41899b6024fae896441f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 54/75] fix: services can use WS-Addressing

Service(use_wsa=True) referred to header classes that do not exist.
---
 soapfish/soap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index d5f6219..e8ca771 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -49,9 +49,9 @@ class Service:
         self.version = version
         self.use_wsa = use_wsa
         if use_wsa and input_header is None:
-            input_header = wsa.WSAsaHeader
+            input_header = wsa.Header
         if use_wsa and output_header is None:
-            output_header = wsa.WSAHeader
+            output_header = wsa.Header
         self.input_header = input_header
         self.output_header = output_header
 
-- 
2.43.0


From bd32fef400e3cf9acd0dc815286079854a9237fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:29 +0000
Subject: [PATCH 55/75] fix: keep the location of a WSDL generated from a
 service with a location template

---
 soapfish/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index d5b697d..2fafea2 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -113,6 +113,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
             raise ValueError(f'Unknown URL component: {item}') from e
 
     def url_template(url):
+        if url.startswith('${scheme}://${host}'):
+            return url  # the WSDL was generated from a template
         o = list(urlparse(url))
         o[0:2] = ['${scheme}', '${host}']
         return urlunparse(o)
-- 
2.43.0


From 5cdabef7d503eaf15951f59760f258c098994ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:01 +0000
Subject: [PATCH 56/75] fix: do not mistake elements of another namespace for a
 field that declares its own

A header entry such as {urn:other}MessageID was read as the entry
{http://www.w3.org/2005/08/addressing}MessageID of the header class.
---
 soapfish/xsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3d85c92..45f294e 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1080,6 +1080,8 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):
             return False  # comment or processing instruction
         ns, tag = gettagns(xmlelement.tag)
+        if ns and getattr(field, 'namespace', None) and ns != field.namespace:
+            return False
         return tag == (field.tagname or field._name)
 
     @classmethod
-- 
2.43.0


From e28b96d670beee47b9d4dc71d76a5336d11c71c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 57/75] fix: route requests without action by the qualified
 name of the body entry

An element of another schema with the same local name as the input of an
operation was passed to that operation.
---
 soapfish/soap_dispatch.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index ccf45bd..59ae204 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -96,17 +96,32 @@ class SOAPDispatcher:
 
         else:
             logger.debug('Finding handler using root tag of the SOAP body: %s', root_tag)
-            try:
-                return next(m for m in self.service.methods if m.input == root_tag)
-            except StopIteration:
-                pass  # fall through and check for substitution group element
-            try:
+            element = self._find_element(etree.QName(body.tag))
+            methods = [] if element is None else [
+                m for m in self.service.methods
+                if m.input == root_tag and self.service.find_element_by_name(m.input) is element]
+            if not methods and element is not None and element.substitutionGroup:
                 # FIXME: Improve handling of namespaces to be less hacky...
-                e = next(e for s in self.service.schemas for n, e in s.elements.items() if n == root_tag)
-                head = e.substitutionGroup.split(':')[-1] if e.substitutionGroup else None
-                return next(m for m in self.service.methods if head and m.input == head)
-            except StopIteration as e:
-                raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}') from e
+                head = element.substitutionGroup.split(':')[-1]
+                methods = [m for m in self.service.methods if m.input == head]
+            if not methods:
+                raise SOAPError(SOAP.Code.CLIENT, f'Missing SOAP action and invalid root tag: {root_tag}')
+            return methods[0]
+
+    def _find_element(self, qname):
+        """Return the element of a schema or a schema it imports or includes, names may be used in several namespaces."""
+        pending, seen = [(schema, None) for schema in self.service.schemas], []
+        while pending:
+            schema, namespace = pending.pop()
+            if any(schema is s for s in seen):
+                continue
+            seen.append(schema)
+            namespace = schema.targetNamespace or namespace
+            if namespace == qname.namespace and qname.localname in schema.elements:
+                return schema.elements[qname.localname]
+            pending.extend((s, None) for s in schema.imports)
+            pending.extend((s, namespace) for s in schema.includes)
+        return None
 
     def _parse_header(self, handler, soap_header):
         # TODO return soap fault if header is required but missing in the input
-- 
2.43.0


From 1f04f6575155b70959774d63b1cb5e88b70c8b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 58/75] fix: media types are case-insensitive

The action of a SOAP 1.2 request with content type Application/soap+xml was
ignored.
---
 soapfish/soap12.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soapfish/soap12.py b/soapfish/soap12.py
index e84dbd0..f1413dd 100644
--- a/soapfish/soap12.py
+++ b/soapfish/soap12.py
@@ -11,7 +11,7 @@ NAME = 'soap12'
 # --- Functions ---------------------------------------------------------------
 def determine_soap_action(request):
     ct, cp = cgi.parse_header(request.environ.get('CONTENT_TYPE', ''))
-    return cp.get('action') if ct == CONTENT_TYPE else None
+    return cp.get('action') if ct.lower() == CONTENT_TYPE else None
 
 
 def build_http_request_headers(soapAction):
-- 
2.43.0


From 4a8cc4da813f94d1c3cb23ad37c141841c434708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 59/75] fix: name the response element after the operation that
 was called

If a middleware passed on another request object the result was rendered under
the name of its class instead of the operation's output element.
---
 soapfish/core.py          |  1 +
 soapfish/soap_dispatch.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/soapfish/core.py b/soapfish/core.py
index 9e1e6be..d621e1b 100644
--- a/soapfish/core.py
+++ b/soapfish/core.py
@@ -21,6 +21,7 @@ class SOAPResponse:
         self.http_status_code = http_status_code
         self.http_headers = {} if http_headers is None else http_headers
         self.http_content = http_content
+        self.method = None
 
     @property
     def http_status_text(self):
diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 59ae204..9484cab 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -18,7 +18,10 @@ logger = logging.getLogger(__name__)
 def call_method(request):
     request.dispatcher._prepare_request(request)
     response = request.method.function(request, request.soap_body)
-    return response if isinstance(response, SOAPResponse) else SOAPResponse(response)
+    if not isinstance(response, SOAPResponse):
+        response = SOAPResponse(response)
+    response.method = request.method
+    return response
 
 
 class SOAPDispatcher:
@@ -225,8 +228,10 @@ class SOAPDispatcher:
         else:
             # self._validate_response(response.soap_body, tagname)
             # TODO: handle validation results
-            if request.method is not None and isinstance(request.method.output, str):
-                tagname = request.method.output
+            # A middleware may have passed on another request.
+            method = response.method or request.method
+            if method is not None and isinstance(method.output, str):
+                tagname = method.output
             else:
                 tagname = uncapitalize(response.soap_body.__class__.__name__)
             response.http_content = SOAP.Envelope.response(tagname, response.soap_body, header=response.soap_header)
-- 
2.43.0


From 6645346dc98bfd88df2cb00ede14c55dfe757abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 60/75] fix: tell header entries of other namespaces from the
 declared ones

The WSDL classes rely on reading elements of either SOAP namespace, so only
headers take the namespace of a field into account.
---
 soapfish/soap11.py | 10 +++++++++-
 soapfish/xsd.py    |  2 --
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap11.py b/soapfish/soap11.py
index 454deaf..97139e4 100644
--- a/soapfish/soap11.py
+++ b/soapfish/soap11.py
@@ -1,3 +1,4 @@
+import copy
 import enum
 
 from lxml import etree
@@ -41,7 +42,14 @@ class Header(xsd.ComplexType):
         return value
 
     def parse_as(self, ContentType):
-        return ContentType.parse_xmlelement(self._xmlelement)
+        # Entries of other namespaces may have the same local names.
+        namespaces = {f.tagname or f._name: f.namespace for f in ContentType._meta.fields if f.namespace}
+        header = copy.deepcopy(self._xmlelement)
+        for entry in list(header.iterchildren(etree.Element)):
+            name = etree.QName(entry)
+            if name.namespace and name.namespace != namespaces.get(name.localname, name.namespace):
+                header.remove(entry)
+        return ContentType.parse_xmlelement(header)
 
     def render(self, parent, instance, namespace=None, elementFormDefault=None):
         # Only the entries are always qualified, what they contain follows the form of its schema.
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 45f294e..3d85c92 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1080,8 +1080,6 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         if not isinstance(xmlelement.tag, str):
             return False  # comment or processing instruction
         ns, tag = gettagns(xmlelement.tag)
-        if ns and getattr(field, 'namespace', None) and ns != field.namespace:
-            return False
         return tag == (field.tagname or field._name)
 
     @classmethod
-- 
2.43.0


From 0187f0c85843b563c44def8ccfcd36ad672126b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 61/75] fix: substitute scheme and host only in the locations
 of the WSDL

---
 soapfish/soap_dispatch.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 9484cab..031fea3 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -246,7 +246,7 @@ class SOAPDispatcher:
         host = request.environ.get('HTTP_HOST')
         wsdl = self.wsdl
         if scheme and host:
-            wsdl = string.Template(wsdl.decode()).safe_substitute(scheme=scheme, host=host).encode()
+            wsdl = self._fill_in_locations(wsdl, scheme=scheme, host=host)
         response = SOAPResponse('wsdl', http_content=wsdl, http_headers={'Content-Type': 'text/xml'})
         return self._call_hook('wsdl-response', dispatcher=self, request=request, response=response)
 
@@ -269,6 +269,16 @@ class SOAPDispatcher:
             if 'schemaLocation' in e.attrib:
                 e.attrib['schemaLocation'] = '?xsd=%s' % quote(e.attrib['schemaLocation'], safe='/:')
 
+    def _fill_in_locations(self, wsdl, **context):
+        # Only locations are templates, other text must be left alone.
+        root = etree.fromstring(wsdl)
+        for e in root.iter(etree.Element):
+            for name in ('location', 'schemaLocation'):
+                if name in e.attrib:
+                    location = string.Template(e.attrib[name]).safe_substitute(**context)
+                    e.attrib[name] = replace_control_characters(location)
+        return etree.tostring(root.getroottree())
+
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
         obj = hook(**kw) if hook is not None else kw[name.split('-').pop()]
-- 
2.43.0


From 8daf3156034ed1134dd9868fc0f757558964485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 62/75] fix: read the header of responses as the class given to
 the service

Dispatchers fall back to the header class of the service for requests, but
stubs ignored the one for responses.
---
 soapfish/soap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soapfish/soap.py b/soapfish/soap.py
index e8ca771..664c979 100644
--- a/soapfish/soap.py
+++ b/soapfish/soap.py
@@ -104,8 +104,9 @@ class Stub:
         soap = self.service.version
         envelope = soap.Envelope.parsexml(content)
 
-        if envelope.Header and method and method.output_header:
-            response_header = envelope.Header.parse_as(method.output_header)
+        output_header = (method and method.output_header) or self.service.output_header
+        if envelope.Header and output_header:
+            response_header = envelope.Header.parse_as(output_header)
         else:
             response_header = None
 
-- 
2.43.0


From 8a35ff1847678149676d65006b7700ca9e5c0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 63/75] fix: load modules under a name in py2xsd and py2wsdl

Types that are referred to by the name of their module, as the generated code
does for recursive types, could not be found.
---
 soapfish/py2wsdl.py |  5 ++---
 soapfish/py2xsd.py  |  5 ++---
 soapfish/utils.py   | 12 ++++++++++++
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index 1fafa64..c844c84 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -3,14 +3,13 @@
 import argparse
 import logging
 import sys
-from importlib.machinery import SourceFileLoader
 
 from lxml import etree
 
 from . import namespaces as ns, xsd
 from .py2xsd import generate_xsdspec
 from .soap import SOAP_HTTP_Transport
-from .utils import uncapitalize
+from .utils import load_module, uncapitalize
 from .wsdl import get_wsdl_classes
 
 logger = logging.getLogger('soapfish')
@@ -137,7 +136,7 @@ def main(argv=None):
 
     logger.info('Generating WSDL for Python module: %s', opt.module)
 
-    module = SourceFileLoader('', opt.module).load_module()
+    module = load_module(opt.module)
     tree = generate_wsdl(module.SERVICE)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index ba38dfa..23367a2 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -5,12 +5,11 @@ import inspect
 import itertools
 import logging
 import sys
-from importlib.machinery import SourceFileLoader
 
 from lxml import etree
 
 from . import namespaces as ns, xsd, xsdspec
-from .utils import uncapitalize, walk_schema_tree
+from .utils import load_module, uncapitalize, walk_schema_tree
 
 NUMERIC_TYPES = [
     xsd.Decimal, xsd.Integer, xsd.Int, xsd.Long, xsd.Short, xsd.UnsignedByte, xsd.UnsignedInt, xsd.UnsignedLong,
@@ -322,7 +321,7 @@ def main(argv=None):
     opt = parser.parse_args(sys.argv[1:] if argv is None else argv)
 
     logger.info('Generating XSD for Python module: %s', opt.module)
-    module = SourceFileLoader('', opt.module).load_module()
+    module = load_module(opt.module)
     tree = generate_xsd(module.Schema)
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 2fafea2..72b3e98 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -1,10 +1,13 @@
 import hashlib
+import importlib.util
 import itertools
 import keyword
 import logging
 import os
 import re
+import sys
 from datetime import datetime, timedelta, timezone
+from importlib.machinery import SourceFileLoader
 from urllib.parse import urlparse, urlunparse
 
 import requests
@@ -36,6 +39,15 @@ def open_document(path):
             return f.read()
 
 
+def load_module(path, name='soapfish_module'):
+    """Load the Python module at path, types may refer to others by the name of the module."""
+    spec = importlib.util.spec_from_file_location(name, path, loader=SourceFileLoader(name, path))
+    module = importlib.util.module_from_spec(spec)
+    sys.modules[name] = module
+    spec.loader.exec_module(module)
+    return module
+
+
 # --- Template Filters --------------------------------------------------------
 def remove_namespace(qname):
     return qname.split(':')[-1] if qname else None
-- 
2.43.0


From f0fa24279be7124bce172552f3ac52cedfa005fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 64/75] fix: find the schema of generated modules in py2xsd

The tutorial generates code from an XSD and an XSD from that code again, but
generated modules have no object called Schema.
---
 soapfish/py2xsd.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/soapfish/py2xsd.py b/soapfish/py2xsd.py
index 23367a2..673098c 100644
--- a/soapfish/py2xsd.py
+++ b/soapfish/py2xsd.py
@@ -308,6 +308,18 @@ def schema_validator(schemas):
 # --- Program -----------------------------------------------------------------
 
 
+def find_schema(module):
+    """Return the schema of a module, generated code names schemas by their namespace."""
+    if isinstance(getattr(module, 'Schema', None), xsd.Schema):
+        return module.Schema
+    schemas = [value for value in vars(module).values() if isinstance(value, xsd.Schema)]
+    referenced = [s for schema in schemas for s in (*schema.imports, *schema.includes)]
+    for schema in schemas:
+        if not any(schema is s for s in referenced):
+            return schema
+    raise AttributeError(f'No schema found in {module.__file__}')
+
+
 def main(argv=None):
     stdout = getattr(sys.stdout, 'buffer', sys.stdout)
 
@@ -322,7 +334,7 @@ def main(argv=None):
 
     logger.info('Generating XSD for Python module: %s', opt.module)
     module = load_module(opt.module)
-    tree = generate_xsd(module.Schema)
+    tree = generate_xsd(find_schema(module))
 
     opt.output.write(etree.tostring(tree, pretty_print=True))
 
-- 
2.43.0


From c4d556efb178d8872c0bbb41c65716a961516ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 65/75] fix: write element names outside ASCII as UTF-8

lxml writes such names as character references if the encoding is
ASCII, and the documents were not well-formed.
---
 soapfish/soap_dispatch.py | 2 +-
 soapfish/xsd.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/soapfish/soap_dispatch.py b/soapfish/soap_dispatch.py
index 031fea3..d3a49c3 100644
--- a/soapfish/soap_dispatch.py
+++ b/soapfish/soap_dispatch.py
@@ -277,7 +277,7 @@ class SOAPDispatcher:
                 if name in e.attrib:
                     location = string.Template(e.attrib[name]).safe_substitute(**context)
                     e.attrib[name] = replace_control_characters(location)
-        return etree.tostring(root.getroottree())
+        return etree.tostring(root.getroottree(), encoding='utf-8')
 
     def _call_hook(self, name, **kw):
         hook = self.hooks.get(name)
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 3d85c92..9ff7009 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1148,7 +1148,7 @@ class ComplexType(Type, metaclass=Complex_PythonType):
         self.render(xmlelement, self, namespace, elementFormDefault)
         if schema is not None:
             schema.assertValid(xmlelement)
-        return etree.tostring(xmlelement, pretty_print=pretty_print)
+        return etree.tostring(xmlelement, encoding='utf-8', pretty_print=pretty_print)
 
     @classmethod
     def _force_elements_type_evalution(cls):
@@ -1182,7 +1182,7 @@ class Document(ComplexType):
         mockelement = Document.MockElement()
         instance = getattr(self, field._name)
         field.render(mockelement, field._name, instance, self.NAMESPACE)
-        return etree.tostring(mockelement.element, pretty_print=True)
+        return etree.tostring(mockelement.element, encoding='utf-8', pretty_print=True)
 
     # TODO: Add schema support.
     @classmethod
-- 
2.43.0


From c18ceb920c53f4898ef4316aaa933bc19dd34c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:09 +0000
Subject: [PATCH 66/75] fix: refer to the right schemas in the WSDL of a
 service with several schemas

---
 soapfish/py2wsdl.py | 44 +++++++++++++++++++++++++++++++++++++-------
 soapfish/utils.py   | 13 +++++++++++++
 2 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/soapfish/py2wsdl.py b/soapfish/py2wsdl.py
index c844c84..d198069 100644
--- a/soapfish/py2wsdl.py
+++ b/soapfish/py2wsdl.py
@@ -9,7 +9,7 @@ from lxml import etree
 from . import namespaces as ns, xsd
 from .py2xsd import generate_xsdspec
 from .soap import SOAP_HTTP_Transport
-from .utils import load_module, uncapitalize
+from .utils import load_module, uncapitalize, walk_schemas
 from .wsdl import get_wsdl_classes
 
 logger = logging.getLogger('soapfish')
@@ -64,23 +64,44 @@ def build_portTypes(wsdl, definitions, service):
     definitions.portTypes.append(portType)
 
 
+def schema_prefixes(service):
+    """Return the prefixes for the namespaces of all schemas: {namespace: prefix}."""
+    prefixes = {service.schemas[0].targetNamespace: 'sns'}
+    for _, namespace in walk_schemas(service.schemas):
+        if namespace:
+            prefixes.setdefault(namespace, f'sns{len(prefixes)}')
+    return prefixes
+
+
+def schema_qname(service, item):
+    """Return the qualified name of an element, given by its name, or of a type, given by its class."""
+    if isinstance(item, str):
+        name = item
+        found = (namespace for schema, namespace in walk_schemas(service.schemas) if item in schema.elements)
+    else:
+        name = uncapitalize(item.__name__)
+        found = (namespace for schema, namespace in walk_schemas(service.schemas) if schema is item.SCHEMA)
+    namespace = next(found, service.schemas[0].targetNamespace)
+    return f'{schema_prefixes(service)[namespace]}:{name}' if namespace else name
+
+
 def build_messages(wsdl, definitions, service):
     for method in service.methods:
         inputMessage = wsdl.Message(name=method.operationName + 'Input')
         part = wsdl.Part(name='body')
         if isinstance(method.input, str):
-            part.element = 'sns:' + method.input
+            part.element = schema_qname(service, method.input)
         else:
-            part.type = 'sns:' + uncapitalize(method.input.__name__)
+            part.type = schema_qname(service, method.input)
         inputMessage.parts = [part]
         definitions.messages.append(inputMessage)
 
         outputMessage = wsdl.Message(name=method.operationName + 'Output')
         part = wsdl.Part(name='body')
         if isinstance(method.output, str):
-            part.element = 'sns:' + method.output
+            part.element = schema_qname(service, method.output)
         else:
-            part.type = 'sns:' + uncapitalize(method.output.__name__)
+            part.type = schema_qname(service, method.output)
         outputMessage.parts = [part]
         definitions.messages.append(outputMessage)
 
@@ -102,8 +123,7 @@ def generate_wsdl(service):
     xmlelement = etree.Element(
         '{%s}definitions' % ns.wsdl,
         nsmap={
-            # FIXME: Look up properly if multiple schemas...
-            'sns': service.schemas[0].targetNamespace,
+            **{prefix: namespace for namespace, prefix in schema_prefixes(service).items()},
             'soap': service.version.BINDING_NAMESPACE,
             'tns': service.targetNamespace,
             'wsdl': ns.wsdl,
@@ -116,6 +136,16 @@ def generate_wsdl(service):
                        namespace=ns.wsdl,
                        elementFormDefault=xsd.ElementFormDefault.QUALIFIED)
 
+    # References in a schema are to its own namespace.
+    prefixes = schema_prefixes(service)
+    types = xmlelement.find(f'{{{ns.wsdl}}}types')
+    for element, schema in zip(types.findall(f'{{{ns.xsd}}}schema'), service.schemas):
+        prefix = prefixes.get(schema.targetNamespace, 'sns')
+        for e in element.iter(etree.Element):
+            for name in ('base', 'ref', 'substitutionGroup', 'type'):
+                if e.get(name, '').startswith('sns:'):
+                    e.set(name, prefix + e.get(name)[len('sns'):])
+
     return xmlelement
 
 
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 72b3e98..b53cc7e 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -246,6 +246,19 @@ def walk_schema_tree(schemas, callback, seen=None, unlocated=None):
     return seen
 
 
+def walk_schemas(schemas, namespace=None, seen=None):
+    """Yield schemas and the schemas they refer to, each once, in the order names are looked up: (schema, namespace)."""
+    seen = [] if seen is None else seen
+    for schema in schemas:
+        if any(schema is s for s in seen):
+            continue
+        seen.append(schema)
+        target = schema.targetNamespace or namespace
+        yield schema, target
+        yield from walk_schemas(schema.imports, None, seen)
+        yield from walk_schemas(schema.includes, target, seen)
+
+
 def timezone_offset_to_string(offset):
     """
     Return a XSD-compatible string representation of a time zone UTC offset (timedelta).
-- 
2.43.0


From 98be8027f5fa4aa8f01b61d293f3df08f4ecbeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:09 +0000
Subject: [PATCH 67/75] fix: look up elements in schemas that import each other

---
 soapfish/xsd.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 9ff7009..7bebea7 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -41,7 +41,7 @@ import iso8601
 from lxml import etree
 
 from . import namespaces as ns
-from .utils import timezone_offset_to_string
+from .utils import timezone_offset_to_string, walk_schemas
 from .xsd_types import XSDDate
 
 logger = logging.getLogger(__name__)
@@ -1287,15 +1287,8 @@ class Schema:
             t._force_elements_type_evalution()
 
     def get_element_by_name(self, name):
-        if name in self.elements:
-            return self.elements[name]
-
-        for i in itertools.chain(self.imports, self.includes):
-            element = i.get_element_by_name(name)
-            if element is not None:
-                return element
-
-        return None
+        # Schemas may import each other.
+        return next((schema.elements[name] for schema, _ in walk_schemas([self]) if name in schema.elements), None)
 
 
 class Method:
-- 
2.43.0


From 77089c0967ebef9959bbf5103110eac533fc2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 68/75] fix: take the default of an attribute that is absent as
 it is

---
 soapfish/xsd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 7bebea7..e14b9c4 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -760,9 +760,8 @@ class Attribute(Element):
     def parse(self, instance, field_name, xmlelement):
         self._evaluate_type()
         xmlvalue = xmlelement.get(self.tagname or field_name)
-        if xmlvalue is None:
-            xmlvalue = self.default
-        value = self._type.pythonvalue(xmlvalue)
+        # The default is a value as in Python, not its text.
+        value = self.empty_value() if xmlvalue is None else self._type.pythonvalue(xmlvalue)
         setattr(instance, field_name, value)
 
 
-- 
2.43.0


From c3102403f98f8775011f4bb1cc30e312afce97d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:05 +0000
Subject: [PATCH 69/75] fix: keep nil in copies of objects

---
 soapfish/xsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index e14b9c4..5d734c8 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -46,7 +46,14 @@ from .xsd_types import XSDDate
 
 logger = logging.getLogger(__name__)
 
-NIL = object()
+
+class Nil:
+
+    def __reduce__(self):
+        return 'NIL'  # There is only one, copies must be the same.
+
+
+NIL = Nil()
 UNBOUNDED = decimal.Decimal('infinity')
 XML_WHITESPACE = ' \t\r\n'
 
-- 
2.43.0


From 782aa14163205f8b5d88488ce07ab329c51dc55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:10 +0000
Subject: [PATCH 70/75] fix: do not share defaults of complex type between
 objects

---
 soapfish/xsd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 5d734c8..0f65373 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -664,7 +664,8 @@ class Element:
         initialization in most cases this should be None, but for lists and other types of aggregates this should be
         an empty aggregate.
         """
-        return self.default
+        # Objects must not share a default that can be changed.
+        return copy.deepcopy(self.default) if isinstance(self.default, ComplexType) else self.default
 
     def xsd_elements(self):
         return (self, )
@@ -801,12 +802,14 @@ class Ref(Element):
     def empty_value(self):
         self._evaluate_type()
         value = copy.copy(self._type)
-        # Lists and nested groups must not be shared between objects.
+        # Lists, nested groups and objects must not be shared between objects.
         for field in value._meta.all:
             if isinstance(field, ListElement):
                 setattr(value, field._name, getattr(value, field._name))
             elif isinstance(field, Ref):
                 setattr(value, field._name, field.empty_value())
+            elif isinstance(getattr(value, field._name), ComplexType):
+                setattr(value, field._name, copy.deepcopy(getattr(value, field._name)))
         return value
 
     def render(self, parent, field_name, value, namespace=None, elementFormDefault=None):
-- 
2.43.0


From a39acd38698feab6aeab0b8b85b302de08e02d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 71/75] fix: give every schema in generated code a name of its
 own

---
 soapfish/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index b53cc7e..32255af 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -83,8 +83,8 @@ def schema_name(obj, location=None):
     except UnicodeEncodeError:
         pass
 
-    # no cryptographic requirement here, so use md5 for fast hash:
-    return hashlib.md5(value).hexdigest()[:5]
+    # no cryptographic requirement here, so use md5 for fast hash (all of it, names must be unique):
+    return hashlib.md5(value).hexdigest()
 
 
 def schema_select(schemas, elements):
-- 
2.43.0


From 6e0cad287a39a262ae4650bd49d17b19b76ca61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:20 +0000
Subject: [PATCH 72/75] fix: generate headers with elements of any of the
 schemas of a WSDL

---
 soapfish/templates/wsdl.jinja2 |  8 ++++----
 soapfish/utils.py              |  8 ++++++++
 soapfish/xsd.py                | 10 ++++++++++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index ef67fd5..8422381 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -46,10 +46,10 @@ def {{ operation.name|fix_keyword }}(request, {{ _im.part|part_name }}):
 {%- set _omh = get_message_header(definitions, binding, operation, 'output') %}
 {%- if _imh %}
 class {{ _im.name }}Headers(BaseHeader):
-    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element'))) }}
+    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _imh|map(attribute='element')) or definitions.types.schemas[0]) }}
     {%- for part in _imh -%}
     {%- if part.element %}
-    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}').as_field('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = xsd.find_field([{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}], {{ part|element_namespace }}, '{{ part.element|remove_namespace }}')
     {%- else -%}
     {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
@@ -58,10 +58,10 @@ class {{ _im.name }}Headers(BaseHeader):
 {%- endif -%}
 {%- if _omh %}
 class {{ _om.name }}Headers(BaseHeader):
-    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element'))) }}
+    SCHEMA = Schema_{{ schema_name(schema_select(definitions.types.schemas, _omh|map(attribute='element')) or definitions.types.schemas[0]) }}
     {%- for part in _omh -%}
     {%- if part.element %}
-    {{ part.name|fix_keyword }} = SCHEMA.get_element_by_name('{{ part.element|remove_namespace }}').as_field('{{ part.element|remove_namespace }}')
+    {{ part.name|fix_keyword }} = xsd.find_field([{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}], {{ part|element_namespace }}, '{{ part.element|remove_namespace }}')
     {%- else -%}
     {{ part.name|fix_keyword }} = xsd.Element({{ part.type|remove_namespace|capitalize }}())
     {%- endif -%}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 32255af..fb56c0d 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -53,6 +53,13 @@ def remove_namespace(qname):
     return qname.split(':')[-1] if qname else None
 
 
+def element_namespace(part):
+    """Return the namespace of the element of a message part."""
+    prefix, _, _ = part.element.rpartition(':')
+    namespace = part._xmlelement.nsmap.get(prefix or None)
+    return repr(None if namespace is None else str(namespace))
+
+
 def uncapitalize(value):
     return value if value in ('QName', 'NMTOKEN', 'NMTOKENS') else value[0].lower() + value[1:]
 
@@ -196,6 +203,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     )
     env.filters.update(
         capitalize=capitalize,
+        element_namespace=element_namespace,
         facets=facets,
         fix_keyword=fix_keyword,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
diff --git a/soapfish/xsd.py b/soapfish/xsd.py
index 0f65373..2b3252a 100644
--- a/soapfish/xsd.py
+++ b/soapfish/xsd.py
@@ -1300,6 +1300,16 @@ class Schema:
         return next((schema.elements[name] for schema, _ in walk_schemas([self]) if name in schema.elements), None)
 
 
+def find_field(schemas, namespace, name):
+    """Return a field for an element of the schemas or schemas they refer to."""
+    for schema, target in walk_schemas(schemas):
+        if target == namespace and name in schema.elements:
+            field = schema.elements[name].as_field(name)
+            field.namespace = namespace
+            return field
+    raise ValueError(f"Element '{name}' not found in namespace '{namespace}'.")
+
+
 class Method:
     """
     Method description.
-- 
2.43.0


From dcb122615f5ee52bd6f1d10f7f141be95a158592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:51 +0000
Subject: [PATCH 73/75] fix: generate code for elements and types named like
 members of the model classes or keywords

---
 soapfish/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soapfish/utils.py b/soapfish/utils.py
index fb56c0d..da9f937 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -109,7 +109,8 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     from . import soap, xsd, xsdspec, wsdl
 
     def capitalize(value):
-        return value[0].upper() + value[1:]
+        value = value[0].upper() + value[1:]
+        return f'_{value}' if keyword.iskeyword(value) else value
 
     def use(value):
         from . import xsd
@@ -192,7 +193,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
                 code.append((name, str(int(facet.value))))
         return code
 
-    keywords = set(keyword.kwlist)
+    # Besides keywords, fields must not hide the members of their class or what the body of the class needs.
+    keywords = {*keyword.kwlist, *(name for name in dir(xsd.ComplexType) if not name.startswith('_')),
+                'classmethod', 'cls', 'create', 'instance', 'xsd'}
 
     def fix_keyword(value):
         return f'_{value}' if str(value) in keywords else str(value)
-- 
2.43.0


From dec7b1b7fa90492426d1e2f278198bf6fb2eb2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:03 +0000
Subject: [PATCH 74/75] fix: generate operations and parts with reserved names

---
 soapfish/templates/wsdl.jinja2 |  6 +++---
 soapfish/utils.py              | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index 8422381..e01d7d8 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -28,7 +28,7 @@ BaseHeader = {% if use_wsa %}wsa.Header{% else %}xsd.ComplexType{% endif %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
 {%- set _om = get_message_object(definitions, binding, operation, 'output') %}
 {# [blank line] #}
-def {{ operation.name|fix_keyword }}(request, {{ _im.part|part_name }}):
+def {{ operation.name|fix_reserved }}(request, {{ _im.part|part_name }}):
     # TODO: Put your implementation here.
     return {{ _om.part|part_name }}
 {# [blank line] #}
@@ -69,7 +69,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {%- endif %}
 {{ operation.name }}_method = xsd.Method(
-    {% if is_server %}function={{ operation.name|fix_keyword }},
+    {% if is_server %}function={{ operation.name|fix_reserved }},
     {% endif -%}
     soapAction='{{ operation.operation.soapAction or '' }}',
     {%- if _im.parts -%}
@@ -144,7 +144,7 @@ class {{ port.name }}ServiceStub(soap.Stub):
     HOST = '{{ port.address.location|url_component('netloc') }}'
 {% for operation in binding.operations %}
 {%- set _im = get_message_object(definitions, binding, operation, 'input') %}
-    def {{ operation.name|fix_keyword }}(self, {{ _im.part|part_name }}, header=None):
+    def {{ operation.name|fix_reserved }}(self, {{ _im.part|part_name }}, header=None):
         return self.call('{{ operation.name}}', {{ _im.part|part_name }}, header=header)
 {% endfor %}
 {%- endif %}
diff --git a/soapfish/utils.py b/soapfish/utils.py
index da9f937..3a3fa97 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -200,6 +200,13 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
     def fix_keyword(value):
         return f'_{value}' if str(value) in keywords else str(value)
 
+    # Neither operations nor their parameters must hide what the generated code or the stub needs.
+    reserved = {*keyword.kwlist, *vars(soap.Stub), 'header', 'location', 'password', 'request', 'self', 'service', 'soap',
+                'username', 'wsa', 'xsd'}
+
+    def fix_reserved(value):
+        return f'_{value}' if str(value) in reserved else str(value)
+
     env = Environment(
         extensions=['jinja2.ext.do', 'jinja2.ext.loopcontrols'],
         loader=PackageLoader('soapfish', 'templates'),
@@ -209,8 +216,9 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         element_namespace=element_namespace,
         facets=facets,
         fix_keyword=fix_keyword,
+        fix_reserved=fix_reserved,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
-        part_name=lambda x: fix_keyword(remove_namespace(x.element) or x.name),
+        part_name=lambda x: fix_reserved(remove_namespace(x.element) or x.name),
         remove_namespace=remove_namespace,
         type=get_type,
         url_component=url_component,
-- 
2.43.0


From 2314b46b06390c3eb279017c00118954c9310621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:07 +0000
Subject: [PATCH 75/75] fix: quote texts in generated code

---
 soapfish/templates/lib.jinja2  | 4 ++--
 soapfish/templates/wsdl.jinja2 | 6 +++---
 soapfish/utils.py              | 1 +
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/soapfish/templates/lib.jinja2 b/soapfish/templates/lib.jinja2
index ab13e66..185fbb4 100644
--- a/soapfish/templates/lib.jinja2
+++ b/soapfish/templates/lib.jinja2
@@ -15,9 +15,9 @@
 Schema_{{ schema_name(schema) }} = xsd.Schema(
     imports=[{% for i in schema.imports %}Schema_{{ schema_name(i, i.schemaLocation) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     includes=[{% for i in schema.includes %}Schema_{{ schema_name(i) }}{% if not loop.last %}, {% endif %}{% endfor %}],
-    targetNamespace='{{ schema.targetNamespace }}',
+    targetNamespace={{ schema.targetNamespace|quoted }},
     {%- if location %}
-    location='{{ location|url_template }}',{% endif %}
+    location={{ location|url_template|quoted }},{% endif %}
     elementFormDefault='{{ schema.elementFormDefault }}',
     simpleTypes=[{% for st in schema.simpleTypes %}{{ st.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
     attributeGroups=[{% for ag in schema.attributeGroups %}{{ ag.name|capitalize }}{% if not loop.last %}, {% endif %}{% endfor %}],
diff --git a/soapfish/templates/wsdl.jinja2 b/soapfish/templates/wsdl.jinja2
index e01d7d8..7e7694b 100644
--- a/soapfish/templates/wsdl.jinja2
+++ b/soapfish/templates/wsdl.jinja2
@@ -71,7 +71,7 @@ class {{ _om.name }}Headers(BaseHeader):
 {{ operation.name }}_method = xsd.Method(
     {% if is_server %}function={{ operation.name|fix_reserved }},
     {% endif -%}
-    soapAction='{{ operation.operation.soapAction or '' }}',
+    soapAction={{ (operation.operation.soapAction or '')|quoted }},
     {%- if _im.parts -%}
     {%- if _im.part.element %}
     input='{{ _im.part.element|remove_namespace }}',
@@ -108,8 +108,8 @@ class {{ _om.name }}Headers(BaseHeader):
 {# [blank line] #}
 {{ port.name }}_SERVICE = soap.Service(
     name='{{ port.name }}',
-    targetNamespace='{{ definitions.targetNamespace }}',
-    location='{{ port.address.location|url_template }}',
+    targetNamespace={{ definitions.targetNamespace|quoted }},
+    location={{ port.address.location|url_template|quoted }},
     schemas=[{% for s in definitions.types.schemas %}Schema_{{ schema_name(s) }}{% if not loop.last %}, {% endif %}{% endfor %}],
     {%- if get_soap_version(binding).NAME == 'soap11' %}
     version=soap.SOAPVersion.SOAP11,
diff --git a/soapfish/utils.py b/soapfish/utils.py
index 3a3fa97..7008b95 100644
--- a/soapfish/utils.py
+++ b/soapfish/utils.py
@@ -218,6 +218,7 @@ def get_rendering_environment(xsd_namespaces, module='soapfish'):
         fix_keyword=fix_keyword,
         fix_reserved=fix_reserved,
         max_occurs=lambda x: 'xsd.UNBOUNDED' if x is xsd.UNBOUNDED else str(x),
+        quoted=lambda x: repr(str(x)),
         part_name=lambda x: fix_reserved(remove_namespace(x.element) or x.name),
         remove_namespace=remove_namespace,
         type=get_type,
-- 
2.43.0

