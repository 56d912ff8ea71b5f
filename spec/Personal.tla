------------------------------ MODULE Personal ------------------------------
(* The personal data of a set of measurements: a record whose fields are set one after another; a value which is not one of the field is
   refused and changes nothing.

   A date is [k: "none" | "value" | "text", v: <<year, month, day>> or, with a time, <<y, m, d, hours, minutes, seconds, microseconds>>];
   a text may be no date of the calendar. A gender is a name in any case, known or not.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VF_IN)
VARIABLES i, k, data, res
vars == <<i, k, data, res>>

Texts == {"first_name", "last_name", "email", "comment"}
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysOf(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
IsDay(v) == v[1] \in 1..9999 /\ v[2] \in 1..12 /\ v[3] \in 1..DaysOf(v[1], v[2])
IsTime(v) == IsDay(v) /\ v[4] \in 0..23 /\ v[5] \in 0..59 /\ v[6] \in 0..59 /\ v[7] \in 0..999999
Genders == {"UNKNOWN", "FEMALE", "MALE", "PARTICULAR"}

Accepts(op) == CASE op.f \in Texts -> TRUE
                 [] op.f = "gender" -> op.v.v \in Genders
                 [] op.v.k = "none" -> TRUE
                 [] op.f = "birth_date" -> IsDay(op.v.v)
                 [] op.f = "measurement_date" -> IsTime(op.v.v)
Nothing == [k |-> "none", v |-> <<>>]
Default == [first_name |-> "", last_name |-> "", email |-> "", comment |-> "", birth_date |-> Nothing, measurement_date |-> Nothing,
            gender |-> [k |-> "value", v |-> "UNKNOWN"]]
Set(op) == IF Accepts(op) THEN data' = [data EXCEPT ![op.f] = op.v] /\ res' = "ok" ELSE data' = data /\ res' = "err"

Init == i \in DOMAIN Cases /\ k = 0 /\ data = Default /\ res = "ok"
Next == k < Len(Cases[i]) /\ Set(Cases[i][k + 1]) /\ k' = k + 1 /\ i' = i
Emit == PrintT(ToJson([i |-> i, k |-> k, data |-> data, res |-> res]))

\* a field is always a value of its kind; only the one which is set changes
Valid == /\ data.gender.v \in Genders
         /\ data.birth_date.k # "none" => IsDay(data.birth_date.v)
         /\ data.measurement_date.k # "none" => IsTime(data.measurement_date.v)
Local == [][\A f \in DOMAIN data : data[f] # data'[f] => f = Cases[i][k'].f]_vars
\* the calendar: a year has 365 or 366 days, four centuries have 146097
RECURSIVE Days(_)
Days(y) == IF y = 0 THEN 0 ELSE Days(y - 1) + (IF Leap(y) THEN 366 ELSE 365)
ASSUME Days(400) = 146097
ASSUME \A y \in 1896..1904 : (IF Leap(y) THEN 366 ELSE 365) =
          DaysOf(y, 1) + DaysOf(y, 2) + DaysOf(y, 3) + DaysOf(y, 4) + DaysOf(y, 5) + DaysOf(y, 6) + DaysOf(y, 7) + DaysOf(y, 8)
          + DaysOf(y, 9) + DaysOf(y, 10) + DaysOf(y, 11) + DaysOf(y, 12)
=============================================================================
