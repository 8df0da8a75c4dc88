----------------------------- MODULE CalendarMC -----------------------------
(* The closed forms against the calendar itself: a known day, and for every  *)
(* day of the range the step to the next one in both calendars, the weekday  *)
(* and the ISO week.                                                          *)
EXTENDS Calendar
CONSTANTS From, To
VARIABLE z
Init == z \in From..(From + 63)
Next == z + 64 <= To /\ z' = z + 64
Spec == Init /\ [][Next]_z
\* 1 March 2000 was a Wednesday in week 9, and 17 February in the Julian calendar
Known == /\ Date(11017) = <<2000, 3, 1>> /\ JDate(11017) = <<2000, 2, 17>> /\ Weekday(11017) = 3 /\ IsoYear(11017) = 2000 /\ IsoWeek(11017) = 9
         /\ Day(1970, 1, 1) = 0
\* week 1 starts on the Monday from 29 December to 4 January
NewYear(d) == (d[2] = 12 /\ d[3] >= 29) \/ (d[2] = 1 /\ d[3] <= 4)
Agrees ==
  LET d == Date(z) e == Date(z + 1) j == JDate(z) wy == IsoYear(z) ww == IsoWeek(z) IN
  /\ Known
  /\ e = Tomorrow(d, Leap(d[1])) /\ Day(d[1], d[2], d[3]) = z
  /\ JDate(z + 1) = Tomorrow(j, JLeap(j[1])) /\ JDay(j[1], j[2], j[3]) = z
  /\ Weekday(z + 1) = (Weekday(z) + 1) % 7
  /\ <<IsoYear(z + 1), IsoWeek(z + 1)>> =
       (IF Weekday(z + 1) # 1 THEN <<wy, ww>> ELSE IF NewYear(e) THEN <<(IF e[2] = 12 THEN e[1] + 1 ELSE e[1]), 1>> ELSE <<wy, ww + 1>>)
  /\ Day(wy, 1, 4) - IsoDay(Day(wy, 1, 4)) + 7 * (ww - 1) + IsoDay(z) = z
  /\ AddMonths(d, 12) = <<d[1] + 1, d[2], IF d[2] = 2 THEN Least(d[3], MLen(Leap(d[1] + 1), 2)) ELSE d[3]>>
  /\ AddBusiness(AddBusiness(z, 1), -1) = (IF Weekday(z) = 6 THEN z - 1 ELSE IF Weekday(z) = 0 THEN z - 2 ELSE z)
  /\ MonthsBetween(<<z, 5, 0>>, <<z + 31, 5, 0>>) >= 1 /\ MonthsBetween(<<z + 27, 5, 0>>, <<z, 5, 0>>) = 0
\* negative control
Wrong == YearDay(z) < 366
=============================================================================
