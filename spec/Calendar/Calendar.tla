------------------------------ MODULE Calendar ------------------------------
(* The calendar and the clock.  A day is its distance from 1970-01-01; an   *)
(* instant is <<day, second of the day, nanosecond>>.                       *)
EXTENDS Num, FiniteSets

---------------------------------------------------------------------------
(* Gregorian and Julian calendars. *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
JLeap(y) == y % 4 = 0
MLen(leap, m) == CASE m = 2 -> (IF leap THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE Before(_, _)
Before(leap, m) == IF m = 1 THEN 0 ELSE Before(leap, m - 1) + MLen(leap, m - 1)
\* days from 1 January of year 0 to 1 January of year y
YearG(y) == 365 * y + (y + 3) \div 4 - (y + 99) \div 100 + (y + 399) \div 400
YearJ(y) == 365 * y + (y + 3) \div 4
Day(y, m, d) == YearG(y) - 719528 + Before(Leap(y), m) + d - 1
JDay(y, m, d) == YearJ(y) - 719530 + Before(JLeap(y), m) + d - 1
InYear(leap, n) ==
  LET m == CHOOSE x \in 1..12 : Before(leap, x) <= n /\ n < Before(leap, x) + MLen(leap, x)
  IN <<m, n - Before(leap, m) + 1>>
Date(z) ==
  LET e == (z + 719528) \div 146097
      r == (z + 719528) % 146097
      y == CHOOSE x \in (r \div 366)..(r \div 365) : YearG(x) <= r /\ r < YearG(x + 1)
      md == InYear(Leap(y), r - YearG(y))
  IN <<400 * e + y, md[1], md[2]>>
JDate(z) ==
  LET e == (z + 719530) \div 1461
      r == (z + 719530) % 1461
      y == CHOOSE x \in 0..3 : YearJ(x) <= r /\ r < YearJ(x + 1)
      md == InYear(JLeap(y), r - YearJ(y))
  IN <<4 * e + y, md[1], md[2]>>

Weekday(z) == (z + 4) % 7                       \* 0 is Sunday
IsoDay(z) == IF Weekday(z) = 0 THEN 7 ELSE Weekday(z)
\* a week belongs to the year of its Thursday, and is numbered by the Thursdays before it
IsoYear(z) == Date(z - IsoDay(z) + 4)[1]
IsoWeek(z) == 1 + (z - IsoDay(z) + 4 - Day(IsoYear(z), 1, 1)) \div 7
YearDay(z) == z - Day(Date(z)[1], 1, 1) + 1
Weekend(z) == Weekday(z) \in {0, 6}
NthWeekday(y, m, n, w) ==
  LET ds == {d \in 1..MLen(Leap(y), m) : Weekday(Day(y, m, d)) = w}
      k == IF n > Cardinality(ds) THEN Cardinality(ds) ELSE n
  IN CHOOSE d \in ds : Cardinality({x \in ds : x <= d}) = k

\* the days themselves, one after the other
Tomorrow(dt, leap) ==
  IF dt[3] < MLen(leap, dt[2]) THEN <<dt[1], dt[2], dt[3] + 1>>
  ELSE IF dt[2] < 12 THEN <<dt[1], dt[2] + 1, 1>> ELSE <<dt[1] + 1, 1, 1>>

---------------------------------------------------------------------------
(* Instants. *)
DaySecs == 86400
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Le(a, b) == a = b \/ Lt(a, b)
Shift(i, s) == <<i[1] + (i[2] + s) \div DaySecs, (i[2] + s) % DaySecs, i[3]>>
\* what 64 bits of nanoseconds can hold
First == <<-106752, 763, 145224192>>
Last == <<106751, 85636, 854775807>>
Holds(i) == Le(First, i) /\ Le(i, Last)

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o " " \o Cat(Tail(s))
P2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
P4(n) == Pad4(n)
P3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
\* n < 10^w as w digits without the zeros at the end
RECURSIVE Frac(_, _)
Frac(n, w) == IF n = 0 THEN "" ELSE LET p == 10 ^ (w - 1) IN ToString(n \div p) \o Frac(n % p, w - 1)
Clock(s, ns) == P2(s \div 3600) \o ":" \o P2((s % 3600) \div 60) \o ":" \o P2(s % 60)
                \o (IF ns = 0 THEN "" ELSE "." \o Frac(ns, 9))
Stamp(i) == LET d == Date(i[1]) IN P4(d[1]) \o "-" \o P2(d[2]) \o "-" \o P2(d[3]) \o "T" \o Clock(i[2], i[3])
Civil(i) == Date(i[1]) \o <<i[2] \div 3600, (i[2] % 3600) \div 60, i[2] % 60, i[3]>>

---------------------------------------------------------------------------
(* Spans of months and business days. *)
Least(a, b) == IF a < b THEN a ELSE b
AddMonths(dt, n) ==
  LET t == 12 * dt[1] + dt[2] - 1 + n y == t \div 12 m == (t % 12) + 1
  IN <<y, m, Least(dt[3], MLen(Leap(y), m))>>
AddSpan(dt, months, days) == LET e == AddMonths(dt, months) IN Date(Day(e[1], e[2], e[3]) + days)
MonthsUp(a, b) ==                               \* the most months that still fit, a <= b
  LET x == Date(a[1]) y == Date(b[1])
      g == 12 * (y[1] - x[1]) + y[2] - x[2]
      fits == {k \in (g - 2)..(g + 1) : LET e == AddMonths(x, k) IN Le(<<Day(e[1], e[2], e[3]), a[2], a[3]>>, b)}
  IN CHOOSE k \in fits : k + 1 \notin fits
MonthsBetween(a, b) == IF Lt(b, a) THEN -MonthsUp(b, a) ELSE MonthsUp(a, b)
Trunc(n, d) == IF n < 0 THEN -((-n) \div d) ELSE n \div d
Business(a, b) == IF a <= b THEN Cardinality({d \in a..(b - 1) : ~Weekend(d)}) ELSE -Cardinality({d \in b..(a - 1) : ~Weekend(d)})
RECURSIVE AddBusiness(_, _)
AddBusiness(z, n) ==
  IF n = 0 THEN z
  ELSE LET s == IF n > 0 THEN 1 ELSE -1 IN AddBusiness(z + s, IF Weekend(z + s) THEN n ELSE n - s)

---------------------------------------------------------------------------
(* Time zones: the offset before the first change, then <<day, second, offset>> changes. *)
Off(base, tr, i) ==
  LET past == {j \in 1..Len(tr) : Le(<<tr[j][1], tr[j][2], 0>>, i)}
  IN IF past = {} THEN base ELSE tr[CHOOSE j \in past : \A k \in past : k <= j][3]
Local(base, tr, i) == Shift(i, Off(base, tr, i))
Offsets(base, tr) == {base} \cup {tr[j][3] : j \in 1..Len(tr)}
Earliest(S) == CHOOSE x \in S : \A y \in S : Le(x, y)
Latest(S) == CHOOSE x \in S : \A y \in S : Le(y, x)
\* the instants that show this local time; in a gap, the two readings of the skipped hour
Instants(base, tr, l) ==
  LET real == {x \in {Shift(l, -o) : o \in Offsets(base, tr)} : Local(base, tr, x) = l}
      prev(j) == IF j = 1 THEN base ELSE tr[j - 1][3]
      at(j) == <<tr[j][1], tr[j][2], 0>>
      gap == {j \in 1..Len(tr) : Le(at(j), Shift(l, -prev(j))) /\ Lt(Shift(l, -tr[j][3]), at(j))}
  IN IF real # {} THEN real ELSE UNION {{Shift(l, -prev(j)), Shift(l, -tr[j][3])} : j \in gap}

Us == <<<<3, 2, 7200>>, <<11, 1, 7200>>>>       \* month, which Sunday, second on the local clock
Eu(h) == <<<<3, 5, 3600 * (h + 1)>>, <<10, 5, 3600 * (h + 2)>>>>
Au == <<<<10, 1, 7200>>, <<4, 1, 10800>>>>
Zone(n) ==
  CASE n \in {"UTC", "Etc/UTC", "Zulu"} -> <<0, <<>>>>
    [] n = "America/New_York" -> <<-5, Us>> [] n = "America/Chicago" -> <<-6, Us>>
    [] n = "America/Denver" -> <<-7, Us>> [] n = "America/Los_Angeles" -> <<-8, Us>>
    [] n = "America/Phoenix" -> <<-7, <<>>>>
    [] n \in {"Europe/London", "Europe/Dublin", "Europe/Lisbon"} -> <<0, Eu(0)>>
    [] n \in {"Europe/Paris", "Europe/Berlin", "Europe/Madrid", "Europe/Rome", "Europe/Amsterdam"} -> <<1, Eu(1)>>
    [] n \in {"Asia/Kolkata", "Asia/Calcutta"} -> <<5, <<>>>>
    [] n = "Asia/Tokyo" -> <<9, <<>>>> [] n = "Asia/Shanghai" -> <<8, <<>>>>
    [] n = "Australia/Sydney" -> <<10, Au>>
    [] OTHER -> <<>>
StdOff(n) == 3600 * Zone(n)[1] + (IF n \in {"Asia/Kolkata", "Asia/Calcutta"} THEN 1800 ELSE 0)
Change(y, rule, before) ==
  LET i == Shift(<<Day(y, rule[1], NthWeekday(y, rule[1], rule[2], 0)), 0, 0>>, rule[3] - before) IN <<i[1], i[2]>>
\* the offset at an instant: summer time runs from the last start to the next end
ZoneOff(n, i) ==
  LET std == StdOff(n) rules == Zone(n)[2] y == Date(i[1])[1]
      on == UNION {{Change(x, rules[1], std)} : x \in (y - 1)..(y + 1)}
      off == UNION {{Change(x, rules[2], std + 3600)} : x \in (y - 1)..(y + 1)}
      past(S) == {c \in S : Le(<<c[1], c[2], 0>>, i)}
      newest(S) == CHOOSE c \in S : \A e \in S : Le(<<e[1], e[2], 0>>, <<c[1], c[2], 0>>)
      a == newest(past(on)) b == newest(past(off))
  IN IF rules = <<>> THEN std ELSE IF Lt(<<a[1], a[2], 0>>, <<b[1], b[2], 0>>) THEN std ELSE std + 3600
Abs_(n) == IF n < 0 THEN -n ELSE n
OffText(o) == (IF o < 0 THEN "-" ELSE "+") \o P2(Abs_(o) \div 3600) \o ":" \o P2((Abs_(o) % 3600) \div 60)

---------------------------------------------------------------------------
(* Atomic time. *)
LeapDays == <<<<1972, 7>>, <<1973, 1>>, <<1974, 1>>, <<1975, 1>>, <<1976, 1>>, <<1977, 1>>, <<1978, 1>>, <<1979, 1>>, <<1980, 1>>,
  <<1981, 7>>, <<1982, 7>>, <<1983, 7>>, <<1985, 7>>, <<1988, 1>>, <<1990, 1>>, <<1991, 1>>, <<1992, 7>>, <<1993, 7>>, <<1994, 7>>,
  <<1996, 1>>, <<1997, 7>>, <<1999, 1>>, <<2006, 1>>, <<2009, 1>>, <<2012, 7>>, <<2015, 7>>, <<2017, 1>>>>
Ahead(z) == 10 + Cardinality({j \in 1..Len(LeapDays) : Day(LeapDays[j][1], LeapDays[j][2], 1) <= z})
Terrestrial(i) == LET n == i[3] + 184000000 IN Shift(<<i[1], i[2], n % 1000000000>>, Ahead(i[1]) + 32 + n \div 1000000000)

---------------------------------------------------------------------------
(* Durations: <<negative, days, seconds, nanoseconds>>. *)
Unit(n, u) == IF n = 0 THEN "" ELSE ToString(n) \o u
Point(n, f, w, u) == IF f = 0 THEN ToString(n) \o u ELSE ToString(n) \o "." \o Frac(f, w) \o u
DurText(neg, d, s, ns) ==
  IF d = 0 /\ s = 0 /\ ns = 0 THEN "0s"
  ELSE (IF neg THEN "-" ELSE "") \o
       (IF d > 0 \/ s > 0
        THEN Unit(d, "d") \o Unit(s \div 3600, "h") \o Unit((s % 3600) \div 60, "m")
             \o (IF s % 60 = 0 /\ ns = 0 THEN "" ELSE Point(s % 60, ns, 9, "s"))
        ELSE IF ns >= 1000000 THEN Point(ns \div 1000000, ns % 1000000, 6, "ms")
        ELSE IF ns >= 1000 THEN Point(ns \div 1000, ns % 1000, 3, "us")
        ELSE ToString(ns) \o "ns")
Nanos(u) == CASE u = "ns" -> Int_(1) [] u = "us" -> Int_(1000) [] u = "ms" -> Int_(1000000)
              [] u = "s" -> NPow(Int_(10), 9) [] u = "m" -> NMul(Int_(60), NPow(Int_(10), 9))
              [] u = "h" -> NMul(Int_(3600), NPow(Int_(10), 9)) [] u = "d" -> NMul(Int_(86400), NPow(Int_(10), 9))
\* a term is <<whole part, digits after the point, how many, unit>>
RECURSIVE Total(_)
Total(ts) ==
  IF ts = <<>> THEN Int_(0)
  ELSE LET t == ts[1] u == Nanos(t[4]) IN
       NAdd(NAdd(NMul(t[1], u), NQuo(NMul(t[2], u), NPow(Int_(10), t[3]))), Total(Tail(ts)))
Edge == NPow(Int_(2), 63)
DurValue(neg, ts) == LET v == IF neg THEN NNeg(Total(ts)) ELSE Total(ts)
                     IN IF NCmp(v, Edge) < 0 /\ NCmp(NNeg(Edge), v) <= 0 THEN NShow(v) ELSE "none"

---------------------------------------------------------------------------
(* Timestamps as text: k = year month day hour minute second, nanoseconds, zone sign, hours, minutes *)
StampValue(k) ==
  IF k[2] \in 1..12 /\ k[3] >= 1 /\ k[3] <= MLen(Leap(k[1]), k[2]) /\ k[4] <= 23 /\ k[5] <= 59 /\ k[6] <= 59 /\ k[9] <= 23 /\ k[10] <= 59
  THEN LET i == Shift(<<Day(k[1], k[2], k[3]), 3600 * k[4] + 60 * k[5] + k[6], k[7]>>, -k[8] * (3600 * k[9] + 60 * k[10]))
       IN IF Holds(i) THEN Cat(i) ELSE "none"
  ELSE "none"

---------------------------------------------------------------------------
I3(k, j) == <<k[j], k[j + 1], k[j + 2]>>
Answer(c) ==
  LET k == c.k IN
  CASE c.o = "date" -> LET z == Day(k[1], k[2], k[3]) IN
         Cat(<<z>> \o Date(z) \o <<Weekday(z), IsoDay(z), YearDay(z), IsoYear(z), IsoWeek(z), IsoDay(z), z, MLen(Leap(k[1]), k[2]), Leap(k[1])>>)
    [] c.o = "day" -> Cat(Date(k[1]) \o JDate(k[1]) \o <<Weekend(k[1])>>)
    [] c.o = "julian" -> LET z == JDay(k[1], k[2], k[3]) IN Cat(<<z>> \o JDate(z) \o <<JLeap(k[1])>>)
    [] c.o = "nth" -> Cat(<<NthWeekday(k[1], k[2], k[3], k[4])>>)
    [] c.o = "span" -> Cat(AddSpan(I3(k, 1), k[4], k[5]))
    [] c.o = "between" -> LET m == MonthsBetween(I3(k, 1), I3(k, 4)) IN Cat(<<m, Trunc(m, 12)>>)
    [] c.o = "business" -> Cat(<<Business(k[1], k[2]), AddBusiness(k[1], k[3])>>)
    [] c.o = "instant" -> Cat(Civil(I3(k, 1)) \o I3(k, 1) \o <<Stamp(I3(k, 1)) \o "Z", Clock(k[2], k[3])>> \o I3(k, 1))
    [] c.o = "stamp" -> IF c.bad THEN "none" ELSE StampValue(k)
    [] c.o = "tai" -> Cat(<<Ahead(k[1])>> \o Shift(I3(k, 1), Ahead(k[1])) \o Terrestrial(I3(k, 1)) \o I3(k, 1) \o I3(k, 1))
    [] c.o = "dur" -> Cat(<<DurText(k[1] = 1, k[2], k[3], k[4]), TRUE>>)
    [] c.o = "durtext" -> IF c.bad THEN "none" ELSE DurValue(k[1] = 1, c.ts)
    [] c.o = "zone" -> Cat(<<Off(k[1], c.tr, I3(k, 2))>> \o Civil(Local(k[1], c.tr, I3(k, 2))))
    [] c.o = "local" -> LET S == Instants(k[1], c.tr, I3(k, 2)) IN Cat(Earliest(S) \o Latest(S))
    [] c.o = "named" -> IF Zone(c.zone) = <<>> THEN "none"
         ELSE LET o == ZoneOff(c.zone, I3(k, 1)) l == Shift(I3(k, 1), o) IN
              Cat(l \o <<Stamp(<<l[1], l[2], 0>>) \o OffText(o)>>)
=============================================================================
