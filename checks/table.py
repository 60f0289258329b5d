"""What each property's check runs."""
import os
from vf import REPO, VERIF
CHECKS = {}

def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco

@check("C01")
def c01(x):
    x.model("MapStoreMC", min_states=100)
    x.trace("maps", "MapStoreTrace", ["store"], label="maps-store", min_events=1000)

@check("C02")
def c02(x):
    x.model("LazyTiles", min_states=100)
    x.trace("maps", "MapStoreTrace", ["grow"], label="maps-grow", min_events=1000)

@check("C03")
def c03(x):
    x.model("LazyTiles", min_states=100)
    x.trace("maps", "MapStoreTrace", ["copy"], label="maps-copy", min_events=1000)

@check("C06")
def c06(x):
    x.model("SaveLoadMC", min_states=100)
    x.trace("maps", "MapStoreTrace", ["save"], label="maps-save", min_events=1000)
    x.trace("savemaps", "SaveLoadTrace", [], label="savemaps", min_events=1000)

TECH = {}
NOTES = {}
NOT_APPLICABLE = {}

@check("C04")
def c04(x):
    x.model("LevelsMC", min_states=100)
    x.trace("rescale", "LevelsTrace", ["levels"], label="levels", min_events=1000)

@check("C05")
def c05(x):
    x.model("BoundsMC", min_states=100)
    x.trace("rescale", "BoundsTrace", ["bounds"], label="bounds", min_events=1000)

@check("C07")
def c07(x):
    x.model("CellMergeMC", min_states=100)
    x.trace("cells", "CellMergeTrace", ["merge"], label="cells-merge", min_events=1000)

@check("C08")
def c08(x):
    x.model("BeliefMC", min_states=100)
    x.trace("cells", "BeliefTrace", ["belief"], label="cells-belief", min_events=1000)

@check("C13")
def c13(x):
    x.model("MatcherMC", min_states=100)
    x.trace("matchers", "MatcherTrace", ["protocol"], label="protocol", min_events=1000)

@check("C14")
def c14(x):
    x.model("BruteForceMC", min_states=100)
    x.trace("matchers", "BruteForceTrace", ["bf"], label="bf", min_events=1000)
    x.trace("matchers", "PolarTrace", ["polar"], label="polar", min_events=300)

@check("C15")
def c15(x):
    x.model("HillClimbMC", min_states=100)
    x.trace("matchers", "HillClimbTrace", ["hc"], label="hc", min_events=1000)

@check("C16")
def c16(x):
    x.model("MonteCarloMC", min_states=100)
    x.trace("matchers", "MonteCarloTrace", ["mc"], label="mc", min_events=1000)

@check("C20")
def c20(x):
    x.model("WorldMC", min_states=1000)
    x.trace("worlds", "WorldTrace", ["single"], label="world", min_events=1000)

@check("C21")
def c21(x):
    x.model("ParticlesMC", min_states=1000)
    x.model("ParticlesMC", "ParticlesMC2", min_states=1000)
    x.model("FilterMC", min_states=1000)
    x.trace("worlds", "ParticleWorldTrace", ["particle"], label="particle", min_events=1000)
    x.trace("worlds", "FilterTrace", ["filter"], label="filter", min_events=1000)

@check("C22")
def c22(x):
    x.model("WeightsMC", min_states=300)
    x.model("FilterMC", min_states=1000)
    x.trace("worlds", "WeightsTrace", ["pf"], label="pf", min_events=500)
    x.trace("worlds", "FilterTrace", ["filter"], label="filter", min_events=500)

@check("C09")
def c09(x):
    x.model("GridGeomMC", min_states=100)
    x.trace("geom", "GridTrace", ["cells"], label="geom-cells", min_events=1000)

@check("C10")
def c10(x):
    x.model("BeamPathMC", min_states=100)
    x.model("LineMC", min_states=1000)
    x.trace("geom", "GridTrace", ["beams"], label="geom-beams", min_events=1000)

@check("C29")
def c29(x):
    x.model("RectsMC", min_states=100)
    x.trace("geom", "RectTrace", ["rects"], label="geom-rects", min_events=1000)

@check("C12")
def c12(x):
    x.model("AreaEstMC", min_states=100)
    x.trace("area", "AreaEstTrace", [], label="area", min_events=1000)

@check("C11")
def c11(x):
    x.model("ScanInsertMC", min_states=100)
    x.trace("scanadd", "ScanInsertTrace", [], label="scanadd", min_events=300)

@check("C19")
def c19(x):
    x.model("PointScoreMC", min_states=100)
    x.trace("scoring", "PointScoreTrace", ["point"], label="point", min_events=1000)

@check("C18")
def c18(x):
    x.model("ScanScoreMC", min_states=100)
    x.trace("scoring", "ScanScoreTrace", ["scan"], label="scan", min_events=1000)

@check("C17")
def c17(x):
    x.model("M3RSMMC", min_states=100)
    if x.thorough:
        x.model("M3RSMMC", "M3RSMMC_T1", min_states=100)
        x.model("M3RSMMC", "M3RSMMC_T2", min_states=100)
    x.trace("m3rsm", "M3RSMTrace", ["land"], label="land", min_events=100)
    x.trace("m3rsm", "M3RSMTrace", ["real"], label="real", min_events=100)
    x.scenarios("m3rsm")

@check("C28")
def c28(x):
    x.model("ScanGeomMC", min_states=100)
    for mode in ("points", "scans", "trig", "hist"):
        x.trace("features", "ScanGeomTrace", [mode], label="scan-" + mode, min_events=300)

@check("C23")
def c23(x):
    x.model("SettingsMC", min_states=100)
    x.trace("settings", "SettingsTrace", [], label="settings", min_events=1000, flags=ROS)

@check("C26")
def c26(x):
    x.model("LaserGenMC", min_states=100)
    x.trace("lasergen", "LaserGenTrace", [], label="lasergen", min_events=1000)
    x.scenarios("lasergen", ("findings",))


@check("C25")
def c25(x):
    x.model("ImageMC", min_states=100)
    x.trace("images", "ImageTrace", ["images"], label="images", min_events=800)


@check("C27")
def c27(x):
    x.model("RasterMC", min_states=1000)
    x.trace("images", "RasterTrace", ["rasters"], label="rasters", min_events=400)


@check("C24")
def c24(x):
    x.model("ConfigMC", min_states=1000)
    flags = ("-DVERIF_CONFIG=\"%s/config\"" % REPO,)
    cases = x.generate("config", "ConfigGen", flags=flags)
    x.trace("config", "ConfigTrace", ["cases", cases], label="config", min_events=300, flags=flags, timeout=600)

ROS = ("-I" + os.path.join(VERIF, "harness", "rosstub"), "-pthread")

@check("C30")
def c30(x):
    x.model("LaserMsgMC", min_states=1000)
    x.trace("rosscan", "LaserMsgTrace", [], label="rosscan", min_events=1000, flags=ROS)


@check("C31")
def c31(x):
    x.model("BagSyncMC", min_states=1000)
    x.model("BagSyncMC", "BagSyncMC2", min_states=1000)
    x.trace("rosdrive", "BagSyncTrace", ["bag"], label="bag", min_events=1000, flags=ROS)
    x.trace("rosdrive", "BagSyncTrace", ["live"], label="live", min_events=1000, flags=ROS)


@check("C32")
def c32(x):
    x.model("PublishMC", min_states=1000)
    x.model("PublishMC", "PublishMC2", min_states=1000)
    x.trace("rospub", "PublishTrace", ["poses"], label="poses", min_events=1000, flags=ROS)
    x.trace("rospub", "PublishTrace", ["maps"], label="maps", min_events=500, flags=ROS)
    x.trace("rospub", "PublishTrace", ["async"], label="async", min_events=20, flags=ROS)


@check("C33")
def c33(x):
    x.model("DriveMC", min_states=1000)
    # (the flag: a main without a return statement is compiled as an ordinary function)
    flags = ROS + ("-fsanitize=unreachable",)
    x.trace("rosrun", "DriveTrace", ["run"], label="run", min_events=300, flags=flags)
    x.trace("rosrun", "DriveTrace", ["node"], label="node", min_events=300, flags=flags)
    x.trace("rosrun", "DriveTrace", ["fit"], label="fit", min_events=300, flags=flags)


@check("C34")
def c34(x):
    x.model("FixedClimbMC", min_states=1000)
    x.trace("matchers", "FixedClimbTrace", ["fixed"], label="fixed", min_events=500)


@check("C35")
def c35(x):
    x.model("DriftMC", min_states=1000)
    x.trace("matchers", "DriftTrace", ["dots"], label="dots", min_events=1000)


@check("C36")
def c36(x):
    x.model("OfflineMC", min_states=1000)
    x.trace("offline", "OfflineTrace", [], label="offline", min_events=300, timeout=700)


@check("C37")
def c37(x):
    x.model("HelpersMC", min_states=1000)
    flags = ROS + ("-fsanitize=unreachable",)
    x.trace("roshelp", "HelpersTrace", ["path"], label="path", min_events=300, flags=flags)
    x.trace("roshelp", "HelpersTrace", ["adapter"], label="adapter", min_events=300, flags=flags)


@check("C38")
def c38(x):
    x.model("SearchSpaceMC", min_states=1000)
    x.trace("searchspace", "SearchSpaceTrace", [], label="searchspace", min_events=50)


@check("C39")
def c39(x):
    x.model("VecMC", min_states=1000)
    x.trace("vec", "VecTrace", [], label="vec", min_events=3000)
