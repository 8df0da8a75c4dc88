----------------------------- MODULE CalendarGen -----------------------------
(* Questions at the boundaries: ends of months, eras, leap days, changes of  *)
(* zone offset, leap seconds, the ends of the representable range.           *)
EXTENDS Calendar, Json
VARIABLES n, case
vars == <<n, case>>
R(S) == RandomElement({x \in S : n >= -1})
Pick(s) == s[R(1..Len(s))]
Up(m) == R(0..99) + 100 * R(0..(m \div 100))            \* about 0..m, m <= 10^6 in small sets
Wide == Pick(<<1, -1>>) * (Up(9900) + 10000 * R(0..200))

Years == <<1600, 1700, 1800, 1900, 1970, 1999, 2000, 2001, 2004, 2020, 2023, 2024, 2100, 0, -1, 1, 4, -4, -100, -400, -401, 400, -4712, -4713, -4800, -4801, -5000>>
Year == Pick(<<Pick(Years), 1900 + R(0..250), 1900 + R(0..250), Wide, 400 * R(-50..50) + R(-1..1), 100 * R(-90..90) + R(-1..1)>>)
Near == 1900 + R(0..250)
\* a valid date of the year, most often at an end of a month
D3(y, leap) ==
  \E m \in {Pick(<<1, 2, 2, 3, 12, R(1..12)>>)} : \E d \in {Pick(<<1, MLen(leap, m), R(1..28), Least(R(27..31), MLen(leap, m))>>)} :
    case' = [o |-> IF leap = JLeap(y) /\ R(1..4) = 1 THEN "julian" ELSE "date", k |-> <<y, m, d>>]
DateCase == \E y \in {Year} : D3(y, Leap(y))
JulianCase == \E y \in {Year} : \E m \in {R(1..12)} : \E d \in {Pick(<<1, 28, MLen(JLeap(y), m)>>)} : case' = [o |-> "julian", k |-> <<y, m, d>>]
Zed == Pick(<<R(-400..400), Pick(<<1, -1>>) * (Up(9900) + 10000 * R(0..70)), 146097 * R(-20..20) - 719528 + R(-400..400), 11016 + 36524 * R(-5..5) + R(-3..3)>>)
DayCase == case' = [o |-> "day", k |-> <<Zed>>]
NthCase == case' = [o |-> "nth", k |-> <<Near, R(1..12), R(1..5), R(0..6)>>]
SpanCase == \E y \in {Near} : \E m \in {R(1..12)} : \E d \in {Pick(<<MLen(Leap(y), m), R(1..28)>>)} :
  case' = [o |-> "span", k |-> <<y, m, d, Pick(<<R(-30..30), 12 * R(-30..30), R(-999..999)>>), Pick(<<0, R(-40..40), R(-800..800)>>)>>]

Sec == Pick(<<0, 1, 86399, R(0..23) * 3600, 3600 * R(0..23) + R(0..59) * 60 + R(0..59)>>)
Ns == Pick(<<0, 0, 1, 999999999, 1000 * R(0..99) * R(0..99), 100000 * R(0..99) * R(0..99), 500000000, 120000000>>)
Inst == Pick(<<<<R(-400..400), Sec, Ns>>, <<100 * R(-1067..1066) + R(0..60), Sec, Ns>>, <<100 * R(-1067..1066) + R(0..60), Sec, Ns>>>>)
InstCase == case' = [o |-> "instant", k |-> Pick(<<Inst, Inst, Inst, First, Last, <<-1, 86399, 999999999>>, <<0, 0, 0>>>>)]
BetweenCase ==
  \E a \in {<<Day(1970 + R(-60..60), R(1..12), 1) + R(-3..28), Sec, Pick(<<0, 1, 5>>)>>} : \E da \in {Date(a[1])} :
  \E e \in {AddMonths(da, Pick(<<R(-40..40), 12 * R(-30..30)>>))} : \E z \in {Day(e[1], e[2], e[3]) + Pick(<<0, 0, 1, -1, R(-40..40)>>)} :
    case' = [o |-> "between", k |-> a \o <<z, Pick(<<a[2], a[2], Sec>>), Pick(<<0, 1, 5>>)>>]
BizCase == \E a \in {Zed} : case' = [o |-> "business", k |-> <<a, a + R(-60..60), R(-60..60)>>]

\* timestamps as text; bad ones carry a defect in form
StampText(k, f, z) == P4(k[1]) \o "-" \o P2(k[2]) \o "-" \o P2(k[3]) \o "T" \o P2(k[4]) \o ":" \o P2(k[5]) \o ":" \o P2(k[6]) \o f
  \o (IF z THEN "Z" ELSE (IF k[8] < 0 THEN "-" ELSE "+") \o P2(k[9]) \o ":" \o P2(k[10]))
StampCase ==
  \E y \in {Pick(<<Near, Near, Near, Near, 1677, 2262, 1678, 2261, 0, 1, 9999, 1600, 1000 + R(0..999)>>)} :
  \E ns \in {Ns} : \E z \in {R(0..1) = 0} :
  \E k \in {<<y, Pick(<<R(1..12), R(1..12), 2, 2, 9, 4, 0, 13>>), Pick(<<R(1..28), 28, 29, 30, 31, 0, 32>>),
              Pick(<<R(0..23), 0, 23, R(0..23), R(0..23), 24>>), Pick(<<R(0..59), 59, R(0..59), R(0..59), 60>>), Pick(<<R(0..59), 59, R(0..59), R(0..59), 60>>),
              ns, Pick(<<1, -1>>), IF z THEN 0 ELSE Pick(<<R(0..14), R(0..23), 0, 23, 24>>), IF z THEN 0 ELSE Pick(<<0, 30, 45, R(0..59), 60>>)>>} :
  \E f \in {IF ns = 0 THEN Pick(<<"", ".0", ".000">>) ELSE "." \o Frac(ns, 9) \o Pick(<<"", "", IF ns % 10 = 0 THEN "0" ELSE "">>)} :
  \E b \in {IF R(1..6) = 1 THEN R(1..9) ELSE 0} :
    case' = [o |-> "stamp", k |-> k, bad |-> b # 0,
             s |-> CASE b = 0 -> StampText(k, f, z)
                     [] b = 1 -> StampText(k, f, z) \o Pick(<<"Z", " ", "0", "x">>)
                     [] b = 2 -> StampText(k, ".", z)
                     [] b = 3 -> P4(k[1]) \o "-" \o P2(k[2]) \o "-" \o P2(k[3]) \o "T" \o P2(k[4]) \o ":" \o P2(k[5]) \o ":" \o P2(k[6]) \o f
                     [] b = 4 -> P4(k[1]) \o "/" \o P2(k[2]) \o "/" \o P2(k[3]) \o "T" \o P2(k[4]) \o ":" \o P2(k[5]) \o ":" \o P2(k[6]) \o "Z"
                     [] b = 5 -> P4(k[1]) \o "-" \o P2(k[2]) \o "-" \o P2(k[3])
                     [] b = 6 -> "+" \o StampText(k, f, z)
                     [] b = 7 -> P4(k[1]) \o "-" \o P2(k[2]) \o "-" \o P2(k[3]) \o "T" \o P2(k[4]) \o ":" \o P2(k[5]) \o ":0" \o "Z"
                     [] b = 8 -> P4(k[1]) \o "-" \o P2(k[2]) \o "-" \o P2(k[3]) \o "T" \o P2(k[4]) \o ":" \o P2(k[5]) \o ":-1" \o "Z"
                     [] b = 9 -> Pick(<<"", "Z", "T", "1970-01-01T00:00:00+0000", "1970-01-01T00:00:00+00", "1970-01-01T00:00:00 Z", "197x-01-01T00:00:00Z", "1970-01-01T00:00:00é">>)]
TaiCase == \E j \in {R(1..Len(LeapDays))} :
  case' = [o |-> "tai", k |-> Pick(<<<<Day(LeapDays[j][1], LeapDays[j][2], 1), R(0..40), Ns>>, <<Day(LeapDays[j][1], LeapDays[j][2], 1) - 1, 86399 - R(0..40), Ns>>, Inst>>)]

DurCase == case' = [o |-> "dur", k |-> Pick(<<<<R(0..1), Pick(<<0, 0, R(1..400), 106750>>), Pick(<<0, Sec, R(0..59), 60 * R(0..59)>>), Ns>>,
                                              <<R(0..1), 0, 0, Pick(<<R(0..999), 1000 * R(0..999), R(0..999) * 1000 + R(0..999), 1000000 * R(0..999), Ns>>)>>,
                                              <<0, 106751, 85636, 854775807>>, <<1, 106751, 85636, 854775808>>, <<1, 106751, 85636, 854775807>>>>)]
Whole == Pick(<<Int_(R(0..9)), Int_(R(0..120)), NPow(Int_(10), R(0..20)), NPow(Int_(2), 63), NSub(NPow(Int_(2), 63), Int_(1)), NQuo(NPow(Int_(2), 63), NPow(Int_(10), Pick(<<3, 6, 9>>)))>>)
FracW == Pick(<<0, 0, 1, 2, 3, 9, 12, 20, 30, 38, 39, 40>>)
RECURSIVE Zeros(_)
Zeros(w) == IF w = 0 THEN "" ELSE "0" \o Zeros(w - 1)
\* a fraction of w digits: the value and its text
FracOf(w) == IF w = 0 THEN <<Int_(0), "">> ELSE Pick(<<<<Int_(5), Zeros(w - 1) \o "5">>, <<NMul(Int_(5), NPow(Int_(10), w - 1)), "5" \o Zeros(w - 1)>>,
                                                 <<NSub(NPow(Int_(10), w), Int_(1)), NShow(NSub(NPow(Int_(10), w), Int_(1)))>>>>)
Term == CHOOSE t \in {[w |-> w, f |-> FracOf(w), i |-> Whole, u |-> Pick(<<"ns", "us", "ms", "s", "m", "h", "d">>)] : w \in {FracW}} : TRUE
RECURSIVE Terms(_)
Terms(m) == IF m = 0 THEN <<>> ELSE <<Term>> \o Terms(m - 1)
RECURSIVE Text(_)
Text(ts) == IF ts = <<>> THEN "" ELSE NShow(ts[1].i) \o (IF ts[1].w = 0 THEN "" ELSE "." \o ts[1].f[2]) \o ts[1].u \o Text(Tail(ts))
DurTextCase ==
  \E b \in {R(1..5) = 1} : \E sg \in {Pick(<<"", "-", "+">>)} : \E ts \in {Terms(Pick(<<1, 1, 2, 3>>))} :
    case' = [o |-> "durtext", bad |-> b, k |-> <<IF sg = "-" THEN 1 ELSE 0>>, ts |-> [j \in 1..Len(ts) |-> <<ts[j].i, ts[j].f[1], ts[j].w, ts[j].u>>],
             s |-> IF b THEN Pick(<<"", "-", "+", "h", "5", "5x", "1h5", "--5s", "1h-5m", "5 s", "5.5", "1hh", "+-5s", "5S", " 5s", "5s ", "1,5s", "5é">>) ELSE sg \o Text(ts)]

\* zone changes at least three days apart
OffV == 900 * R(-48..56)
RECURSIVE Changes(_, _)
Changes(m, z) == IF m = 0 THEN <<>> ELSE <<<<z, Sec, OffV>>>> \o Changes(m - 1, z + R(3..200))
ZoneCase ==
  \E tr \in {Changes(R(0..4), R(-900..20000))} : \E base \in {OffV} :
  \E j \in {IF tr = <<>> THEN 0 ELSE R(1..Len(tr))} :
  \E at \in {IF j = 0 THEN <<R(-9..9), Sec, Ns>> ELSE <<tr[j][1], tr[j][2], Pick(<<0, Ns>>)>>} :
  \E d \in {Pick(<<0, -1, 1, R(-900..900) * 60, R(-9..9) * 900>>)} :
    \/ /\ R(1..2) = 1 /\ case' = [o |-> "zone", tr |-> tr, k |-> <<base>> \o Shift(at, d)]
    \/ \E l \in {Shift(at, d + Pick(<<base, IF j = 0 THEN base ELSE tr[j][3], IF j < 2 THEN base ELSE tr[j - 1][3]>>))} :
         case' = [o |-> "local", tr |-> tr, k |-> <<base>> \o l]
NamedCase ==
  \E z \in {Pick(<<"UTC", "Zulu", "America/New_York", "America/Chicago", "America/Denver", "America/Los_Angeles", "America/Phoenix", "Europe/London", "Europe/Lisbon", "Europe/Paris",
                   "Europe/Rome", "Asia/Kolkata", "Asia/Calcutta", "Asia/Tokyo", "Asia/Shanghai", "Australia/Sydney", "Australia/Sydney", "Mars/Olympus", "utc">>)} :
  \E y \in {Near} :
  \E c \in {IF Zone(z) = <<>> \/ R(1..3) = 1 THEN <<Day(y, 1, 1) + R(-2..368), Sec>>
            ELSE IF Zone(z)[2] = <<>> THEN <<Day(y, 1, 1) + R(-2..2), Sec>>
            ELSE IF R(0..1) = 0 THEN Change(y, Zone(z)[2][1], StdOff(z)) ELSE Change(y, Zone(z)[2][2], StdOff(z) + 3600)} :
    case' = [o |-> "named", zone |-> z, k |-> Shift(<<c[1], c[2], Pick(<<0, 0, Ns>>)>>, Pick(<<0, -1, 1, R(-90..90) * 60>>))]

Init == n = 0 /\ case = <<>>
Next == /\ \E p \in {R(1..18)} :
             CASE p <= 2 -> DateCase [] p = 3 -> JulianCase [] p = 4 -> DayCase [] p = 5 -> NthCase [] p = 6 -> SpanCase [] p \in {7, 8} -> InstCase
               [] p \in {9, 10} -> BetweenCase [] p = 11 -> BizCase [] p \in {12, 13} -> StampCase [] p = 14 -> TaiCase
               [] p = 15 -> DurCase [] p = 16 -> DurTextCase [] p = 17 -> ZoneCase [] p = 18 -> NamedCase
        /\ n' = n + 1
        /\ PrintT("GEN " \o ToJson(case'))
Spec == Init /\ [][Next]_vars
=============================================================================
