-------------------------------- MODULE Time --------------------------------
(***************************************************************************)
(* Timestamps.  An instant is <<d, s, ns>>: days since 1970-01-01T00:00Z,   *)
(* seconds of that day (0..86399) and nanoseconds, so that nothing          *)
(* overflows TLC's integers.  The local time zone is a fixed offset.        *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Bytes

Day == 86400
Norm(d, s, ns) == <<d + (s \div Day), s % Day, ns>>

TCmp(a, b) ==
    IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1)
    ELSE IF a[3] # b[3] THEN (IF a[3] < b[3] THEN -1 ELSE 1) ELSE 0

\* a - b in whole seconds, rounded down, as <<days, secs>> with 0 <= secs < 86400
TDiff(a, b) ==
    LET borrow == IF a[3] < b[3] THEN 1 ELSE 0
        n == Norm(a[1] - b[1], a[2] - b[2] - borrow, 0)
    IN <<n[1], n[2]>>
\* ... in whole units, rounded towards zero
Trunc(n, d) == IF n >= 0 THEN n \div d ELSE -((-n) \div d)
DiffDays(x) == IF x[1] >= 0 \/ x[2] = 0 THEN x[1] ELSE x[1] + 1
DiffSecs(x) == x[1] * Day + x[2]
DiffMins(x) ==
    \* trunc((d * 86400 + s) / 60)
    LET m == x[1] * 1440 + (x[2] \div 60) IN
    IF m >= 0 \/ x[2] % 60 = 0 THEN m ELSE m + 1
\* rounded up to days, for non-negative differences
DiffDaysUp(x) == x[1] + (IF x[2] > 0 THEN 1 ELSE 0)

---------------------------------------------------------------------------
(* The proleptic Gregorian calendar *)
\* Days since the epoch of year y, month m (1..12), day d (any integer)
DaysFromCivil(y0, m, d) ==
    LET y == IF m <= 2 THEN y0 - 1 ELSE y0
        era == y \div 400
        yoe == y % 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468
\* The same with any month number, normalised
Days(y, m, d) == DaysFromCivil(y + ((m - 1) \div 12), ((m - 1) % 12) + 1, d)

Civil(z0) ==
    LET z == z0 + 719468
        era == z \div 146097
        doe == z % 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
    IN [y |-> y, m |-> m, d |-> d,
        yday |-> z0 - DaysFromCivil(y, 1, 1), wday |-> (z0 + 4) % 7]

\* Broken-down local time
Local(t, off) ==
    LET l == Norm(t[1], t[2] + off, t[3])
        c == Civil(l[1])
    IN [y |-> c.y, mon |-> c.m, d |-> c.d, yday |-> c.yday, wday |-> c.wday,
        H |-> l[2] \div 3600, M |-> (l[2] \div 60) % 60, S |-> l[2] % 60, ns |-> t[3]]

---------------------------------------------------------------------------
(* Parsing: YYYY[-]MM[-]DD[[T| ]hh[[:]mm[[:]ss]][Z|(+|-)hh[[:]mm]]] or @N *)
BadDate == [ok |-> FALSE, t |-> <<0, 0, 0>>]

DigitsAt(b, i, n) == i + n - 1 <= Len(b) /\ \A j \in i..(i + n - 1) : IsDigit(b[j])
RECURSIVE Num(_, _, _)
Num(b, i, n) == IF n = 0 THEN 0 ELSE Num(b, i, n - 1) * 10 + (b[i + n - 1] - 48)
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0

RECURSIVE Epoch(_, _, _)
Epoch(b, i, acc) ==
    IF i > Len(b) THEN acc
    ELSE LET s == acc[2] * 10 + (b[i] - 48) IN
         Epoch(b, i + 1, <<acc[1] * 10 + (s \div Day), s % Day>>)

Finish(y, m, d, hh, mm, ss, local, tz) ==
    \* tz: offset in seconds east of UTC
    LET n == Norm(Days(y, m, d), hh * 3600 + mm * 60 + ss - tz, 0) IN
    [ok |-> TRUE, t |-> n]

\* Zone designator at index i
Zone(b, i, y, m, d, hh, mm, ss, off) ==
    IF i > Len(b) THEN Finish(y, m, d, hh, mm, ss, TRUE, off)
    ELSE IF b[i] = 90 THEN
        IF i = Len(b) THEN Finish(y, m, d, hh, mm, ss, FALSE, 0) ELSE BadDate
    ELSE IF b[i] = 43 \/ b[i] = 45 THEN
        IF ~DigitsAt(b, i + 1, 2) THEN BadDate
        ELSE LET zh == Num(b, i + 1, 2)
                 j == i + 3
                 k == IF At(b, j) = 58 THEN j + 1 ELSE j
                 sg == IF b[i] = 45 THEN -1 ELSE 1
             IN IF j > Len(b) THEN Finish(y, m, d, hh, mm, ss, FALSE, sg * zh * 3600)
                ELSE IF DigitsAt(b, k, 2) /\ k + 1 = Len(b)
                     THEN Finish(y, m, d, hh, mm, ss, FALSE, sg * (zh * 3600 + Num(b, k, 2) * 60))
                ELSE BadDate
    ELSE BadDate

SecPart(b, i, y, m, d, hh, mm, off) ==
    IF i > Len(b) THEN Finish(y, m, d, hh, mm, 0, TRUE, off)
    ELSE IF b[i] # 58 /\ ~IsDigit(b[i]) THEN Zone(b, i, y, m, d, hh, mm, 0, off)
    ELSE LET k == IF b[i] = 58 THEN i + 1 ELSE i IN
         IF ~DigitsAt(b, k, 2) THEN BadDate
         ELSE Zone(b, k + 2, y, m, d, hh, mm, Num(b, k, 2), off)

MinPart(b, i, y, m, d, hh, off) ==
    IF i > Len(b) THEN Finish(y, m, d, hh, 0, 0, TRUE, off)
    ELSE IF b[i] # 58 /\ ~IsDigit(b[i]) THEN Zone(b, i, y, m, d, hh, 0, 0, off)
    ELSE LET k == IF b[i] = 58 THEN i + 1 ELSE i IN
         IF ~DigitsAt(b, k, 2) THEN BadDate
         ELSE SecPart(b, k + 2, y, m, d, hh, Num(b, k, 2), off)

ParseDate(b, off) ==
    IF b # <<>> /\ b[1] = 64 THEN
        LET sign == At(b, 2) = 43 \/ At(b, 2) = 45
            i == IF sign THEN 3 ELSE 2
        IN IF i > Len(b) \/ \E j \in i..Len(b) : ~IsDigit(b[j]) THEN BadDate
           ELSE LET v == Epoch(b, i, <<0, 0>>) IN
                [ok |-> TRUE, t |-> IF At(b, 2) = 45 THEN Norm(-v[1], -v[2], 0) ELSE <<v[1], v[2], 0>>]
    ELSE IF ~DigitsAt(b, 1, 4) THEN BadDate
    ELSE LET i1 == IF At(b, 5) = 45 THEN 6 ELSE 5 IN
         IF ~DigitsAt(b, i1, 2) THEN BadDate
         ELSE LET i2 == IF At(b, i1 + 2) = 45 THEN i1 + 3 ELSE i1 + 2 IN
              IF ~DigitsAt(b, i2, 2) THEN BadDate
              ELSE LET y == Num(b, 1, 4)
                       m == Num(b, i1, 2)
                       d == Num(b, i2, 2)
                       i3 == i2 + 2
                       i4 == IF At(b, i3) = 84 \/ At(b, i3) = 32 THEN i3 + 1 ELSE i3
                   IN IF i3 > Len(b) THEN Finish(y, m, d, 0, 0, 0, TRUE, off)
                      ELSE IF ~DigitsAt(b, i4, 2) THEN BadDate
                      ELSE MinPart(b, i4 + 2, y, m, d, Num(b, i4, 2), off)

\* The end of the current local day, for -daystart
DayEnd(now, off) ==
    LET l == Norm(now[1], now[2] + off, now[3])
        d == IF l[2] = 0 /\ l[3] = 0 THEN l[1] ELSE l[1] + 1
    IN Norm(d, -off, 0)

---------------------------------------------------------------------------
(* Formatting *)
RECURSIVE ZeroPad(_, _)
ZeroPad(b, n) == IF Len(b) >= n THEN b ELSE ZeroPad(<<48>> \o b, n)
RECURSIVE SpacePad(_, _)
SpacePad(b, n) == IF Len(b) >= n THEN b ELSE SpacePad(<<32>> \o b, n)
Z2(n) == ZeroPad(Dec(n), 2)
Frac(ns) == <<46>> \o ZeroPad(Dec(ns), 9) \o <<48>>
SDec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE Dec(n)

WDays == <<B("Sun"), B("Mon"), B("Tue"), B("Wed"), B("Thu"), B("Fri"), B("Sat")>>
WDaysFull == <<B("Sunday"), B("Monday"), B("Tuesday"), B("Wednesday"), B("Thursday"), B("Friday"), B("Saturday")>>
Months == <<B("Jan"), B("Feb"), B("Mar"), B("Apr"), B("May"), B("Jun"),
            B("Jul"), B("Aug"), B("Sep"), B("Oct"), B("Nov"), B("Dec")>>
MonthsFull == <<B("January"), B("February"), B("March"), B("April"), B("May"), B("June"),
                B("July"), B("August"), B("September"), B("October"), B("November"), B("December")>>

Secs(t) == t[1] * Day + t[2]
HMS(x) == Z2(x.H) \o <<58>> \o Z2(x.M) \o <<58>> \o Z2(x.S)

CTime(t, off) ==
    LET x == Local(t, off) IN
    WDays[x.wday + 1] \o <<32>> \o Months[x.mon] \o <<32>> \o SpacePad(Dec(x.d), 2)
        \o <<32>> \o HMS(x) \o Frac(x.ns) \o <<32>> \o SpacePad(Dec(x.y), 4)

H12(h) == ((h + 11) % 12) + 1
AmPm(h) == IF h < 12 THEN B("AM") ELSE B("PM")
WeekU(x) == (x.yday + 7 - x.wday) \div 7
WeekW(x) == (x.yday + 7 - ((x.wday + 6) % 7)) \div 7
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
\* ISO 8601 week-numbering: [y, w]
Iso(x) ==
    LET wd == (x.wday + 6) % 7                     \* Monday = 0
        w == (x.yday - wd + 10) \div 7
        jan1(y) == (DaysFromCivil(y, 1, 1) + 3) % 7  \* weekday of Jan 1, Monday = 0
        weeks(y) == IF jan1(y) = 3 \/ (jan1(y) = 2 /\ Leap(y)) THEN 53 ELSE 52
    IN IF w < 1 THEN [y |-> x.y - 1, w |-> weeks(x.y - 1)]
       ELSE IF w > weeks(x.y) THEN [y |-> x.y + 1, w |-> 1]
       ELSE [y |-> x.y, w |-> w]
TzNum(off) == LET a == IF off < 0 THEN -off ELSE off IN
              (IF off < 0 THEN <<45>> ELSE <<43>>) \o Z2(a \div 3600) \o Z2((a \div 60) % 60)

\* One strftime-like conversion, c a one-character string
StrFTime(c, t, off, tzname) ==
    LET x == Local(t, off) IN
    CASE c = "%" -> <<37>>
      [] c = "+" -> SpacePad(Dec(x.y), 4) \o <<45>> \o Z2(x.mon) \o <<45>> \o Z2(x.d) \o <<43>> \o HMS(x) \o Frac(x.ns)
      [] c = "@" -> SDec(Secs(t)) \o Frac(t[3])
      [] c = "a" -> WDays[x.wday + 1]
      [] c = "A" -> WDaysFull[x.wday + 1]
      [] c \in {"b", "h"} -> Months[x.mon]
      [] c = "B" -> MonthsFull[x.mon]
      [] c = "c" -> WDays[x.wday + 1] \o <<32>> \o Months[x.mon] \o <<32>> \o SpacePad(Dec(x.d), 2)
                        \o <<32>> \o HMS(x) \o <<32>> \o Dec(x.y)
      [] c = "C" -> Z2(x.y \div 100)
      [] c = "d" -> Z2(x.d)
      [] c \in {"D", "x"} -> Z2(x.mon) \o <<47>> \o Z2(x.d) \o <<47>> \o Z2(x.y % 100)
      [] c = "e" -> SpacePad(Dec(x.d), 2)
      [] c = "F" -> Dec(x.y) \o <<45>> \o Z2(x.mon) \o <<45>> \o Z2(x.d)
      [] c = "g" -> Z2(Iso(x).y % 100)
      [] c = "G" -> Dec(Iso(x).y)
      [] c = "H" -> Z2(x.H)
      [] c = "I" -> Z2(H12(x.H))
      [] c = "j" -> ZeroPad(Dec(x.yday + 1), 3)
      [] c = "k" -> SpacePad(Dec(x.H), 2)
      [] c = "l" -> SpacePad(Dec(H12(x.H)), 2)
      [] c = "m" -> Z2(x.mon)
      [] c = "M" -> Z2(x.M)
      [] c = "n" -> <<10>>
      [] c = "p" -> AmPm(x.H)
      [] c = "r" -> Z2(H12(x.H)) \o <<58>> \o Z2(x.M) \o <<58>> \o Z2(x.S) \o <<32>> \o AmPm(x.H)
      [] c = "R" -> Z2(x.H) \o <<58>> \o Z2(x.M)
      [] c = "s" -> SDec(Secs(t))
      [] c = "S" -> Z2(x.S) \o Frac(x.ns)
      [] c = "t" -> <<9>>
      [] c = "T" -> HMS(x) \o Frac(x.ns)
      [] c = "u" -> Dec(IF x.wday = 0 THEN 7 ELSE x.wday)
      [] c = "U" -> Z2(WeekU(x))
      [] c = "V" -> Z2(Iso(x).w)
      [] c = "w" -> Dec(x.wday)
      [] c = "W" -> Z2(WeekW(x))
      [] c = "X" -> HMS(x)
      [] c = "y" -> Z2(x.y % 100)
      [] c = "Y" -> Dec(x.y)
      [] c = "z" -> TzNum(off)
      [] c = "Z" -> tzname

\* The date column of -ls: within the last six months or in the future up to a day, the time; else the year
LsTime(t, now, off) ==
    LET x == Local(t, off)
        old == TCmp(<<t[1], t[2], 0>>, <<now[1] - 180, now[2], 0>>) <= 0
        future == TCmp(<<t[1], t[2], 0>>, <<now[1] + 1, now[2], 0>>) >= 0
    IN Months[x.mon] \o <<32>> \o SpacePad(Dec(x.d), 2) \o <<32>> \o
       (IF old \/ future THEN <<32>> \o Dec(x.y) ELSE Z2(x.H) \o <<58>> \o Z2(x.M))
=============================================================================
