---------------------------- MODULE DateOps ----------------------------
(* The proleptic Gregorian calendar: a UTC instant is a day number (1970-01-01 is day 0) and a second of that day. *)
EXTENDS Seqs
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthLen(y, m) == CASE m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
\* years are counted from March, so that the leap day is the last one
Civil(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN <<y, m, d>>
Two(n) == <<48 + n \div 10, 48 + (n % 10)>>
Four(n) == Two(n \div 100) \o Two(n % 100)
\* YYYY-MM-DDTHH:MM:SSZ
Stamp(day, sec) == LET c == Civil(day) IN
  Four(c[1]) \o <<45>> \o Two(c[2]) \o <<45>> \o Two(c[3]) \o <<84>> \o Two(sec \div 3600) \o <<58>> \o Two((sec \div 60) % 60) \o <<58>> \o Two(sec % 60) \o <<90>>
RECURSIVE Nat2(_)
Nat2(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Nat2(n \div 10), 48 + (n % 10))
Dec(n) == IF n < 0 THEN <<45>> \o Nat2(0 - n) ELSE Nat2(n)
=====================================================================
