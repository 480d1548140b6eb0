------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar and its texts in HTTP.  A moment is    *)
(* [d |-> days since 1970-01-01, s |-> second of the day].                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Str

Days3 == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
DaysLong == <<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
MonthsLow == <<"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec">>

\* days since 1970-01-01 of a date, and back (years from March on)
DaysOf(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468
Civil(days) ==
    LET z == days + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        day == doy - (153 * mp + 2) \div 5 + 1
        mon == IF mp < 10 THEN mp + 3 ELSE mp - 9
        yr == yoe + era * 400 + (IF mon <= 2 THEN 1 ELSE 0)
    IN [y |-> yr, m |-> mon, d |-> day]
Weekday(days) == ((days + 719468 + 2) % 7) + 1      \* 1 is Monday
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

Clock(s) == Pad0(s \div 3600, 2) \o ":" \o Pad0((s \div 60) % 60, 2) \o ":" \o Pad0(s % 60, 2)
DumpDate(x, delim) ==
    LET c == Civil(x.d)
    IN Days3[Weekday(x.d)] \o ", " \o Pad0(c.d, 2) \o delim \o Months[c.m] \o delim \o NatText(c.y) \o " " \o Clock(x.s) \o " GMT"
HttpDate(x) == DumpDate(x, " ")
CookieDate(x) == DumpDate(x, "-")

\* ---- reading
NoDate == [d |-> 0, s |-> -1]
Shift(x, secs) ==                \* a moment that many seconds later, |secs| < 86400
    LET t == x.s + secs
    IN IF t < 0 THEN [d |-> x.d - 1, s |-> t + 86400] ELSE IF t >= 86400 THEN [d |-> x.d + 1, s |-> t - 86400] ELSE [d |-> x.d, s |-> t]
Words(s) == SelectSeq(Split(ReplaceAll(s, "\t", " "), " "), LAMBDA w : w # "")
ZoneNames == {"GMT", "UTC", "UT", "Z", "EST", "PDT"}
IsZone(z) == z \in ZoneNames \/ (Len(z) = 5 /\ Ch(z, 1) \in {"+", "-"} /\ IsNat(From(z, 2)))
ZoneSecs(z) ==
    IF z \in {"GMT", "UTC", "UT", "Z"} THEN 0 ELSE IF z = "EST" THEN -18000 ELSE IF z = "PDT" THEN -25200
    ELSE LET n == NatOf(Mid(z, 2, 3)) * 3600 + NatOf(Mid(z, 4, 5)) * 60 IN IF Ch(z, 1) = "-" THEN 0 - n ELSE n
MonthSet == {MonthsLow[i] : i \in 1..12}
MonthTab == [w \in MonthSet |-> CHOOSE i \in 1..12 : MonthsLow[i] = w]
MonthNo(w) == IF Lower(w) \in MonthSet THEN MonthTab[Lower(w)] ELSE 0
\* two digits stand for the years 1969 to 2068
FullYear(y) == IF y > 99 THEN y ELSE IF y > 68 THEN 1900 + y ELSE 2000 + y
ClockParts(t) == Split(t, ":")
IsClock(t) == Len(ClockParts(t)) \in {2, 3} /\ \A i \in 1..Len(ClockParts(t)) : IsNat(ClockParts(t)[i]) /\ Len(ClockParts(t)[i]) <= 2
Moment(y, m, d, t, zone) ==
    LET p == ClockParts(t)
        sec == IF Len(p) = 3 THEN NatOf(p[3]) ELSE 0
    IN IF y < 1 \/ y > 9999 \/ m < 1 \/ d < 1 \/ d > MonthDays(y, m) \/ NatOf(p[1]) > 23 \/ NatOf(p[2]) > 59 \/ sec > 59 THEN NoDate
       ELSE Shift([d |-> DaysOf(y, m, d), s |-> NatOf(p[1]) * 3600 + NatOf(p[2]) * 60 + sec], 0 - ZoneSecs(zone))
Dated(d, m, y, t, zone) ==
    IF ~IsNat(d) \/ Len(d) > 2 \/ MonthNo(m) = 0 \/ ~IsNat(y) \/ Len(y) \notin {2, 4} \/ ~IsClock(t) \/ ~IsZone(zone) THEN NoDate
    ELSE Moment(FullYear(NatOf(y)), MonthNo(m), NatOf(d), t, zone)
DayNames == {Lower(Days3[i]) : i \in 1..7} \union {Lower(DaysLong[i]) : i \in 1..7}
DayName(w) == Lower(w) \in DayNames
\* the three forms: with the date in words or joined by dashes, and asctime
ParseDate(text) ==
    LET w0 == Words(text)
        w == IF Len(w0) > 0 /\ EndsWith(w0[1], ",") /\ DayName(UpTo(w0[1], Len(w0[1]) - 1)) THEN Tail(w0) ELSE w0
        p == Split(w[1], "-")
    IN IF Len(w) = 5 /\ DayName(w[1]) THEN Dated(w[3], w[2], w[5], w[4], "GMT")
       ELSE IF Len(w) = 5 THEN Dated(w[1], w[2], w[3], w[4], w[5])
       ELSE IF Len(w) = 3 /\ Len(p) = 3 THEN Dated(p[1], p[2], p[3], w[2], w[3])
       ELSE NoDate
=============================================================================
