----------------------------- MODULE UnitTables -----------------------------
(* The SI prefixes and the units of the measures, from their definitions. *)
EXTENDS Flt, Integers, TLC
SI == ("Y" :> "1e24" @@ "Z" :> "1e21" @@ "E" :> "1e18" @@ "P" :> "1e15" @@ "T" :> "1e12" @@ "G" :> "1e9"
  @@ "M" :> "1e6" @@ "k" :> "1e3" @@ "h" :> "100" @@ "da" :> "10" @@ "" :> "1" @@ "d" :> "0.1" @@ "c" :> "1e-2"
  @@ "m" :> "1e-3" @@ "mu" :> "1e-6" @@ "n" :> "1e-9" @@ "p" :> "1e-12" @@ "f" :> "1e-15" @@ "a" :> "1e-18"
  @@ "z" :> "1e-21" @@ "y" :> "1e-24")
U(f) == [f |-> f, off |-> "0", pow |-> 1, rel |-> "1e-12"]
Rounded(f, r) == [f |-> f, off |-> "0", pow |-> 1, rel |-> r]
Power(n) == [f |-> "1", off |-> "0", pow |-> n, rel |-> "1e-12"]
Offset(f, o) == [f |-> f, off |-> o, pow |-> 1, rel |-> "1e-12"]
Measures == [
  length |-> "m" :> U("1") @@ "in" :> U("0.0254") @@ "ft" :> U("0.3048") @@ "yd" :> U("0.9144") @@ "mi" :> U("1609.344"),
  area |-> "m^2" :> Power(2) @@ "ac" :> Rounded("4046.8564224", "2e-5") @@ "acre" :> Rounded("4046.8564224", "2e-5"),
  volume |-> "m^3" :> Power(3) @@ "L" :> U("1e-3") @@ "l" :> U("1e-3"),
  pressure |-> "Pa" :> U("1") @@ "bar" :> U("1e5") @@ "atm" :> U("101325") @@ "psi" :> Rounded("6894.757293168", "1e-6"),
  frequency |-> "Hz" :> U("1") @@ "per_min" :> U(FDiv("1", "60")) @@ "per_minute" :> U(FDiv("1", "60")),
  force |-> "N" :> U("1"),
  power |-> "W" :> U("1") @@ "PS" :> U("735.49875"),
  mass |-> "g" :> U("0.001") @@ "t" :> U("1000") @@ "oz" :> U("0.028349523125") @@ "lb" :> U("0.45359237"),
  volume_flux |-> "m_cube_per_s" :> U("1") @@ "1000m_cube_per_hour" :> U(FDiv("1000", "3600")),
  temperature |-> "K" :> U("1") @@ "C" :> Offset("1", "273.15") @@ "Celsius" :> Offset("1", "273.15")
    @@ "F" :> Offset(FDiv("5", "9"), FDiv(FMul("459.67", "5"), "9"))]
=============================================================================
