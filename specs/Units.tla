------------------------------- MODULE Units -------------------------------
(* C15. Multiplying by a unit converts into base units, dividing converts out of them, and a unit     *)
(* stays what it is whatever it was used for.                                                       *)
(* A unit is [f: its size in base units, o: its zero in 1/100 base units (temperatures only)].         *)
EXTENDS Decimal
\* ---- what the names mean
N(m, e) == Norm(m, e)
One == N(1, 0)
Foot == N(3048, -4)     Inch == N(254, -4)     Pound == N(45359237, -8)     G0 == N(980665, -5)     Nmi == N(1852, 0)
Mile == Mul(Foot, N(5280, 0))    Lbf == Mul(Pound, G0)    Slug == Div(Lbf, Foot)    Pi == N(31415927, -7)
Hour == N(3600, 0)    Hp == Mul(N(550, 0), Mul(Foot, Lbf))    Btu == N(105505585, -5)
Table ==
  [m |-> One, meter |-> One, km |-> N(1, 3), cm |-> N(1, -2), mm |-> N(1, -3), feet |-> Foot, ft |-> Foot, foot |-> Foot, inch |-> Inch, inches |-> Inch, yard |-> Mul(Foot, N(3, 0)),
   mile |-> Mile, miles |-> Mile, nmi |-> Nmi, nautical_mile |-> Nmi, nautical_miles |-> Nmi,
   s |-> One, second |-> One, min |-> N(60, 0), minute |-> N(60, 0), hr |-> Hour, hour |-> Hour, hours |-> Hour, day |-> N(86400, 0), week |-> N(604800, 0),
   kg |-> One, kilogram |-> One, g |-> N(1, -3), gram |-> N(1, -3), tonne |-> N(1, 3), lb |-> Pound, lbs |-> Pound, pound |-> Pound, pounds |-> Pound, slug |-> Slug, slugs |-> Slug,
   rad |-> One, radian |-> One, deg |-> Div(Pi, N(180, 0)), degree |-> Div(Pi, N(180, 0)), degrees |-> Div(Pi, N(180, 0)), rpm |-> Div(Pi, N(30, 0)),
   knot |-> Div(Nmi, Hour), knots |-> Div(Nmi, Hour), mph |-> Div(Mile, Hour), kph |-> Div(N(1, 3), Hour), N |-> One, newton |-> One, newtons |-> One, kN |-> N(1, 3), lbf |-> Lbf, force_pound |-> Lbf,
   Pa |-> One, kPa |-> N(1, 3), MPa |-> N(1, 6), psi |-> Div(Lbf, Mul(Inch, Inch)), bar |-> N(1, 5), atm |-> N(101325, 0), atmosphere |-> N(101325, 0),
   W |-> One, watt |-> One, kW |-> N(1, 3), hp |-> Hp, horsepower |-> Hp, J |-> One, joule |-> One, kJ |-> N(1, 3), MJ |-> N(1, 6), Wh |-> Hour, BTU |-> Btu,
   L |-> N(1, -3), liter |-> N(1, -3), gallon |-> Mul(N(231, 0), Pow(Inch, 3)), acre |-> Mul(N(43560, 0), Mul(Foot, Foot)),
   A |-> One, ampere |-> One, V |-> One, volt |-> One, ohm |-> One, K |-> One, kelvin |-> One, degR |-> Div(N(5, 0), N(9, 0)), less |-> One, Hz |-> One,
   kts |-> Div(Nmi, Hour), meters |-> One, millimeters |-> N(1, -3), centimeter |-> N(1, -2), kilometer |-> N(1, 3), kilometers |-> N(1, 3), micrometer |-> N(1, -6), um |-> N(1, -6),
   pascal |-> One, pascals |-> One, GPa |-> N(1, 9), watts |-> One, mW |-> N(1, -3), megawatt |-> N(1, 6), GW |-> N(1, 9), kWh |-> Mul(N(1, 3), Hour), kilowatt_hour |-> Mul(N(1, 3), Hour), MWh |-> Mul(N(1, 6), Hour),
   mA |-> N(1, -3), amp |-> One, amps |-> One, kiloampere |-> N(1, 3), kohm |-> N(1, 3), volts |-> One, minutes |-> N(60, 0), sec |-> One, seconds |-> One, hrs |-> Hour, ms |-> N(1, -3), microsecond |-> N(1, -6),
   gallons |-> Mul(N(231, 0), Pow(Inch, 3)), force_pounds |-> Lbf, lbm |-> Pound, kilonewton |-> N(1, 3), kilonewtons |-> N(1, 3), kgf |-> G0, mg |-> N(1, -6), milligram |-> N(1, -6), turn |-> Mul(N(2, 0), Pi),
   fathom |-> Mul(N(2, 0), Mul(N(9144018, -7), One)), fortnight |-> N(1209600, 0), kHz |-> N(1, 3), MHz |-> N(1, 6), coulomb |-> One, tesla |-> One, ounce |-> Div(Pound, N(16, 0)), oz |-> Div(Pound, N(16, 0)), calorie |-> N(4184, -3)]
\* temperatures: kelvin times den = (t - zero) times num, in 1/100
Temp == [degC |-> [n |-> 1, d |-> 1, z |-> 27315], degF |-> [n |-> 5, d |-> 9, z |-> 45967], K |-> [n |-> 1, d |-> 1, z |-> 0], degR |-> [n |-> 5, d |-> 9, z |-> 0]]
TIn(u, t) == ((t + Temp[u].z) * Temp[u].n) \div Temp[u].d
TOut(u, k) == (k * Temp[u].d) \div Temp[u].n - Temp[u].z
\* a product of powers <<[u: name, n: power], ...>>
RECURSIVE Size(_)
Size(p) == IF p = <<>> THEN One ELSE Mul(Pow(Table[p[1].u], p[1].n), Size(Tail(p)))
In(f, x) == Mul(x, f)
Out(f, x) == Div(x, f)
=============================================================================
