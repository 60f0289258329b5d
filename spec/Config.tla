------------------------------- MODULE Config -------------------------------
(* What a configuration means. A configuration maps keys to texts; the meaning of a factory's configuration is a
   sequence of words that names the components to build and all their parameters, or Refused.
   "deg:x" is an angle of x degrees; "any" a parameter that is not determined. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Refused == <<"refused">>
Get(p, k, d) == IF k \in DOMAIN p THEN p[k] ELSE d
SM == "slam/scmtch/"
\* everything but these two counts as true
Bool(t) == IF t \in {"false", "0"} THEN "false" ELSE "true"
\* parts in a row; refused when a part is
RECURSIVE All(_)
All(parts) == IF parts = <<>> THEN <<>>
              ELSE LET rest == All(Tail(parts)) IN IF Head(parts) = Refused \/ rest = Refused THEN Refused ELSE Head(parts) \o rest
Choice(p, k, d, names, word) == LET t == Get(p, k, d) IN IF t \in names THEN word \o <<t>> ELSE Refused

Oie(p) == Choice(p, SM \o "oie/type", "discrepancy", {"discrepancy", "occupancy"}, <<"oie">>)
Oope(p) == All(<<Choice(p, SM \o "oope/type", "obstacle", {"obstacle", "max", "mean", "overlap"}, <<"oope">>), Oie(p)>>)
Swp(p) == Choice(p, SM \o "spe/wmpp/weighting/type", "<undefined>", {"even", "viny", "ahr"}, <<"swp">>)
SpeOf(p, oope) ==
  IF Get(p, SM \o "spe/type", "<undefined>") # "wmpp" THEN Refused
  ELSE All(<<<<"wmpp", Get(p, SM \o "spe/wmpp/sp_skip_rate", "0"), Get(p, SM \o "spe/wmpp/sp_max_usable_range", "-1")>>, Swp(p), oope>>)
Spe(p) == SpeOf(p, Oope(p))

MonteCarlo(p) == <<"MC", Get(p, SM \o "MC/seed", "any"), Get(p, SM \o "MC/dispersion/translation", "0.2"), Get(p, SM \o "MC/dispersion/rotation", "0.1"),
                  Get(p, SM \o "MC/dispersion/failed_attempts_limit", "20"), Get(p, SM \o "MC/attempts_limit", "100")>>
HillClimbing(p) == <<"HC", Get(p, SM \o "HC/distortion/failed_attempts_limit", "6"), Get(p, SM \o "HC/distortion/translation", "0.1"),
                    Get(p, SM \o "HC/distortion/rotation", "0.1"), Bool(Get(p, SM \o "HC/use_frame_alignement", "false"))>>
Range(p, dim, from, to, step) == <<Get(p, SM \o "BF/" \o dim \o "/from", from), Get(p, SM \o "BF/" \o dim \o "/to", to), Get(p, SM \o "BF/" \o dim \o "/step", step)>>
BruteForce(p) == <<"BF">> \o Range(p, "x", "-0.5", "0.5", "0.1") \o Range(p, "y", "-0.5", "0.5", "0.1") \o Range(p, "t", "deg:-5", "deg:5", "deg:1")
M3Rsm(p) == <<"BF_M3RSM", Get(p, SM \o "BF_M3RSM/limits/x_translation", "1"), Get(p, SM \o "BF_M3RSM/limits/y_translation", "1"),
             Get(p, SM \o "BF_M3RSM/limits/rotation", "deg:5"), Get(p, SM \o "BF_M3RSM/accuracy/rotation", "deg:0.1"), Get(p, SM \o "BF_M3RSM/accuracy/translation", "0.05")>>
MatcherType(p) == Get(p, SM \o "type", "<undefined>")
Matcher(p) ==
  LET t == MatcherType(p)
      core == CASE t = "MC" -> MonteCarlo(p) [] t = "HC" -> HillClimbing(p) [] t = "BF" -> BruteForce(p) [] t = "BF_M3RSM" -> M3Rsm(p)
                [] t = "idle" -> <<"idle">> [] t = "HC_FIXED" -> <<"HC_FIXED">> [] OTHER -> Refused
      wrap == IF Bool(Get(p, SM \o "use_amb_drift_detector", "false")) = "true" THEN <<"dots">> ELSE <<>> IN
  All(<<wrap, core, Spe(p)>>)

\* sizes: metres in thousandths, cells rounded up
Milli == ("10" :> 10000) @@ ("4" :> 4000) @@ ("7.3" :> 7300) @@ ("2.25" :> 2250) @@ ("33" :> 33000) @@ ("100" :> 100000)
         @@ ("128" :> 128000) @@ ("12.8" :> 12800) @@ ("0.4" :> 400) @@ ("0.3" :> 300) @@ ("0.1" :> 100) @@ ("0.5" :> 500) @@ ("1" :> 1000) @@ ("0.25" :> 250) @@ ("0.05" :> 50)
Sizable(p) == \A k \in {"slam/map/width_in_meters", "slam/map/height_in_meters", "slam/map/meters_per_cell"} : Get(p, k, "10") \in DOMAIN Milli
CellsNm(m, s) == (Milli[m] + Milli[s] - 1) \div Milli[s]
Size(p) == LET s == Get(p, "slam/map/meters_per_cell", "0.1") IN
  IF ~Sizable(p) THEN Refused ELSE <<"size", ToString(CellsNm(Get(p, "slam/map/width_in_meters", "10"), s)), ToString(CellsNm(Get(p, "slam/map/height_in_meters", "10"), s)), s>>

COE == "slam/occupancy_estimator/"
Estimator(p) == All(<<Choice(p, COE \o "type", "const", {"const", "area"}, <<"est">>),
  <<Get(p, COE \o "base_occupied/prob", "0.95"), Get(p, COE \o "base_occupied/qual", "1.0"), Get(p, COE \o "base_empty/prob", "0.01"), Get(p, COE \o "base_empty/qual", "1.0")>>>>)
Omqe(p) == Choice(p, "slam/mapping/observation_quality_estimator/type", "idle", {"idle", "ahr"}, <<"omqe">>)
Adder(p) == All(<<<<"adder", Get(p, "slam/mapping/blur", "0.0"), Get(p, "slam/mapping/max_range", "inf")>>, Estimator(p), Omqe(p)>>)
Area(p) == Choice(p, "slam/mapping/grid/area/type", "<undefined>", {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability"}, <<"cell">>)
MapOf(p, area) == All(<<
  Choice(p, "slam/mapping/grid/type", "<undefined>", {"plain", "unbounded_plain", "lazy_tiled", "unbounded_lazy_tiled"}, <<"map">>),
  Size(p), IF MatcherType(p) = "BF_M3RSM" THEN All(<<<<"rescalable">>, Oie(p)>>) ELSE <<"single">>, area>>)
Map(p) == MapOf(p, Area(p))
Qualities(p) == <<"qualities", Get(p, "slam/mapping/corrected_pose_quality", "1.0"), Get(p, "slam/mapping/raw_pose_quality", "0.5")>>
Slam(p) == All(<<<<"slam">>, Qualities(p), Map(p), Matcher(p), Adder(p)>>)

Particles(p) == <<"particles", Get(p, "slam/particles/number", "30")>>
PF == "slam/particles/"
Sampling(p) == <<"sampling", Get(p, PF \o "sample/xy/mean", "0.0"), Get(p, PF \o "sample/xy/sigma", "0.1"), Get(p, PF \o "sample/theta/mean", "0.0"), Get(p, PF \o "sample/theta/sigma", "0.03"),
  Get(p, PF \o "sm_delta_lim/xy/min", "0.6"), Get(p, PF \o "sm_delta_lim/xy/max", "0.8"), Get(p, PF \o "sm_delta_lim/theta/min", "0.3"), Get(p, PF \o "sm_delta_lim/theta/max", "0.4")>>
GmSpe(p) == IF Get(p, SM \o "oope/type", "custom") # "custom" THEN Refused
            ELSE SpeOf(p, <<"gmoope", Get(p, SM \o "oope/custom/fullness_threshold", "0.1"), Get(p, SM \o "oope/custom/window_size", "1")>>)

\* the whole systems that fix parts of the configuration
Credibilist(p) == All(<<<<"slam", "qualities", "0.9", "0.6">>, MapOf(p, <<"cell", "credibilist">>), Matcher(p), Adder(p)>>)
Gmapping(p) == All(<<<<"gmapping">>, Particles(p), Sampling(p), Size(p), GmSpe(p), Adder(p)>>)

Built(f, p) ==
  CASE f = "oie" -> Oie(p) [] f = "oope" -> Oope(p) [] f = "swp" -> Swp(p) [] f = "spe" -> Spe(p) [] f = "sm" -> Matcher(p)
    [] f = "size" -> Size(p) [] f = "est" -> Estimator(p) [] f = "omqe" -> Omqe(p) [] f = "adder" -> Adder(p) [] f = "area" -> Area(p)
    [] f = "map" -> Map(p) [] f = "qualities" -> Qualities(p) [] f = "slam" -> Slam(p) [] f = "particles" -> Particles(p)
    [] f = "sampling" -> Sampling(p) [] f = "gmspe" -> GmSpe(p) [] f = "keys" -> <<>> [] f = "credibilist" -> Credibilist(p) [] f = "gmapping" -> Gmapping(p)
\* a configuration from its pairs
FunOf(ps) == [k \in {ps[i][1] : i \in DOMAIN ps} |-> LET i == CHOOSE i \in DOMAIN ps : ps[i][1] = k IN ps[i][2]]
NoNumber == {"abc", "-", "one"}
\* a parameter that is used has to be a number
Means(f, p) == LET m == Built(f, p) IN IF \E i \in DOMAIN m : m[i] \in NoNumber THEN Refused ELSE m
-----------------------------------------------------------------------------
\* configurations worth trying: what a factory starts from, and the values its keys may get
T(s) == SM \o s
SpeBase == (T("spe/type") :> "wmpp") @@ (T("spe/wmpp/weighting/type") :> "even")
SpeKeys == (T("spe/type") :> {"wmpp", "bogus"}) @@ (T("spe/wmpp/weighting/type") :> {"even", "viny", "ahr", "EVEN"})
           @@ (T("spe/wmpp/sp_skip_rate") :> {"1", "2", "3"}) @@ (T("spe/wmpp/sp_max_usable_range") :> {"1.2", "0.7"})
OopeKeys == (T("oope/type") :> {"obstacle", "max", "mean", "overlap", "average"}) @@ (T("oie/type") :> {"discrepancy", "occupancy", ""})
SmKeys ==
  (T("MC/seed") :> {"7", "666666", "-3"}) @@ (T("MC/dispersion/translation") :> {"0.05", "abc"}) @@ (T("MC/dispersion/rotation") :> {"0.3"})
  @@ (T("MC/dispersion/failed_attempts_limit") :> {"3"}) @@ (T("MC/attempts_limit") :> {"12", "one"})
HcKeys == (T("HC/distortion/failed_attempts_limit") :> {"2", "9"}) @@ (T("HC/distortion/translation") :> {"0.25"}) @@ (T("HC/distortion/rotation") :> {"0.02"})
  @@ (T("HC/use_frame_alignement") :> {"true", "false", "1", "0"})
BfKeys == [k \in {T("BF/" \o d \o "/" \o e) : d \in {"x", "y", "t"}, e \in {"from", "to", "step"}} |->
  CASE k = T("BF/x/from") -> {"-0.25"} [] k = T("BF/y/from") -> {"-0.3"} [] k = T("BF/t/from") -> {"-0.05"}
    [] k = T("BF/x/to") -> {"0.25"} [] k = T("BF/y/to") -> {"0.35"} [] k = T("BF/t/to") -> {"0.04"}
    [] k = T("BF/x/step") -> {"0.25"} [] k = T("BF/y/step") -> {"0.2"} [] k = T("BF/t/step") -> {"0.02"}]
M3Keys == (T("BF_M3RSM/limits/x_translation") :> {"0.3"}) @@ (T("BF_M3RSM/limits/y_translation") :> {"0.2"}) @@ (T("BF_M3RSM/limits/rotation") :> {"0.02"})
  @@ (T("BF_M3RSM/accuracy/rotation") :> {"0.01"}) @@ (T("BF_M3RSM/accuracy/translation") :> {"0.1"})
SizeKeys == ("slam/map/width_in_meters" :> {"4", "7.3", "2.25", "abc"}) @@ ("slam/map/height_in_meters" :> {"4", "33", "2.25"}) @@ ("slam/map/meters_per_cell" :> {"0.5", "1", "0.25"})
EstKeys == (COE \o "type" :> {"const", "area", "tbm"}) @@ (COE \o "base_occupied/prob" :> {"0.8"}) @@ (COE \o "base_occupied/qual" :> {"0.4"})
  @@ (COE \o "base_empty/prob" :> {"0.2"}) @@ (COE \o "base_empty/qual" :> {"0.3"})
OmqeKeys == ("slam/mapping/observation_quality_estimator/type" :> {"idle", "ahr", "none"})
AdderKeys == ("slam/mapping/blur" :> {"0.35", "-0.5"}) @@ ("slam/mapping/max_range" :> {"1.3", "0.8"}) @@ EstKeys @@ OmqeKeys
AreaKeys == ("slam/mapping/grid/area/type" :> {"tbm_consistent", "tbm_unknown_even_occ", "affine_quality_merge", "mean_probability", "tbm"})
MapKeys == ("slam/mapping/grid/type" :> {"plain", "unbounded_plain", "lazy_tiled", "unbounded_lazy_tiled", "tiled"})
QualKeys == ("slam/mapping/corrected_pose_quality" :> {"0.9", "0.2", "abc"}) @@ ("slam/mapping/raw_pose_quality" :> {"0.6", "0.1"})
Wrap == (T("use_amb_drift_detector") :> {"true", "false", "0", "1"})
SlamBase == SpeBase @@ (T("type") :> "HC") @@ ("slam/mapping/grid/type" :> "unbounded_plain") @@ ("slam/mapping/grid/area/type" :> "mean_probability")
            @@ (T("MC/seed") :> "5") @@ (T("BF/t/step") :> "0.05") @@ (T("BF_M3RSM/limits/rotation") :> "0.03") @@ (T("BF_M3RSM/accuracy/rotation") :> "0.02")
Types == (T("type") :> {"MC", "HC", "BF", "BF_M3RSM", "idle", "HC_FIXED", "hc", "IDLE"})
PartKeys == (PF \o "sample/xy/mean" :> {"0.2"}) @@ (PF \o "sample/xy/sigma" :> {"0.3"}) @@ (PF \o "sample/theta/mean" :> {"-0.1"}) @@ (PF \o "sample/theta/sigma" :> {"0.2"})
  @@ (PF \o "sm_delta_lim/xy/min" :> {"0.1"}) @@ (PF \o "sm_delta_lim/xy/max" :> {"2"}) @@ (PF \o "sm_delta_lim/theta/min" :> {"0.15"}) @@ (PF \o "sm_delta_lim/theta/max" :> {"1"})
GmKeys == (T("oope/type") :> {"custom", "max"}) @@ (T("oope/custom/fullness_threshold") :> {"0.4"}) @@ (T("oope/custom/window_size") :> {"0", "2"})
None == [k \in {} |-> ""]
Menu == [
  oie |-> <<[f |-> "oie", base |-> None, keys |-> (T("oie/type") :> {"discrepancy", "occupancy", "bogus", "Occupancy"})]>>,
  oope |-> <<[f |-> "oope", base |-> None, keys |-> OopeKeys]>>,
  swp |-> <<[f |-> "swp", base |-> None, keys |-> (T("spe/wmpp/weighting/type") :> {"even", "viny", "ahr", "bogus"})]>>,
  spe |-> <<[f |-> "spe", base |-> SpeBase, keys |-> SpeKeys @@ OopeKeys]>>,
  sm |-> <<[f |-> "sm", base |-> SpeBase @@ (T("type") :> "MC") @@ (T("MC/seed") :> "11"), keys |-> SmKeys @@ Types @@ Wrap],
           [f |-> "sm", base |-> SpeBase @@ (T("type") :> "HC"), keys |-> HcKeys @@ Wrap @@ SpeKeys],
           [f |-> "sm", base |-> SpeBase @@ (T("type") :> "BF"), keys |-> BfKeys],
           [f |-> "sm", base |-> SpeBase @@ (T("type") :> "BF_M3RSM") @@ (T("oope/type") :> "max"), keys |-> M3Keys @@ (T("oope/type") :> {"obstacle", "max"})]>>,
  size |-> <<[f |-> "size", base |-> None, keys |-> SizeKeys]>>,
  est |-> <<[f |-> "est", base |-> None, keys |-> EstKeys]>>,
  omqe |-> <<[f |-> "omqe", base |-> None, keys |-> OmqeKeys]>>,
  adder |-> <<[f |-> "adder", base |-> None, keys |-> AdderKeys]>>,
  area |-> <<[f |-> "area", base |-> None, keys |-> AreaKeys]>>,
  map |-> <<[f |-> "map", base |-> ("slam/mapping/grid/type" :> "unbounded_plain") @@ ("slam/mapping/grid/area/type" :> "affine_quality_merge"),
             keys |-> AreaKeys @@ MapKeys @@ SizeKeys @@ (T("type") :> {"BF_M3RSM", "HC"}) @@ (T("oie/type") :> {"discrepancy", "occupancy", "bogus"})],
           [f |-> "map", base |-> ("slam/mapping/grid/type" :> "lazy_tiled") @@ ("slam/mapping/grid/area/type" :> "tbm_consistent") @@ (T("type") :> "BF_M3RSM"),
             keys |-> AreaKeys @@ MapKeys @@ (T("oie/type") :> {"discrepancy", "occupancy", "bogus"})]>>,
  qualities |-> <<[f |-> "qualities", base |-> None, keys |-> QualKeys]>>,
  slam |-> <<[f |-> "slam", base |-> SlamBase, keys |-> Types @@ AreaKeys @@ MapKeys @@ QualKeys @@ SizeKeys @@ Wrap
               @@ ("slam/mapping/blur" :> {"0.3"}) @@ ("slam/mapping/max_range" :> {"0.4"}) @@ OmqeKeys @@ (COE \o "type" :> {"area"})
               @@ (T("spe/wmpp/weighting/type") :> {"viny"}) @@ (T("oope/type") :> {"max"}) @@ (T("oie/type") :> {"occupancy"})]>>,
  particles |-> <<[f |-> "particles", base |-> None, keys |-> (PF \o "number" :> {"1", "50", "7", "-"})]>>,
  sampling |-> <<[f |-> "sampling", base |-> None, keys |-> PartKeys]>>,
  gmspe |-> <<[f |-> "gmspe", base |-> SpeBase, keys |-> GmKeys @@ SpeKeys]>>,
  credibilist |-> <<[f |-> "credibilist", base |-> SlamBase, keys |-> Types @@ AreaKeys @@ MapKeys @@ QualKeys
               @@ ("slam/mapping/blur" :> {"0.3"}) @@ ("slam/mapping/max_range" :> {"0.4"}) @@ (T("oope/type") :> {"max"})]>>,
  gmapping |-> <<[f |-> "gmapping", base |-> SpeBase @@ (PF \o "number" :> "1"), keys |-> GmKeys @@ SpeKeys @@ PartKeys @@ SizeKeys @@ (PF \o "number" :> {"1", "3"})
               @@ ("slam/mapping/blur" :> {"0.3"}) @@ ("slam/mapping/max_range" :> {"0.4"}) @@ (COE \o "type" :> {"area"})]>> ]
Keys(f) == UNION {DOMAIN m.keys \cup DOMAIN m.base : m \in {Menu[f][i] : i \in DOMAIN Menu[f]}}
\* all keys that mean something
Known == UNION {Keys(f) : f \in DOMAIN Menu}
=============================================================================
