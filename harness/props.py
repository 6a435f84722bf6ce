"""What each check runs: the models, the operations of the property that are
replayed from the models, and the number of generated calls (quick, thorough)."""
PROPS = {
    "P01": dict(models=["MC_Inv"], ops="inv.pt", n=(5000, 60000)),
    "P02": dict(models=["MC_Inv"], ops="inv.circle|inv.line", n=(5000, 60000)),
    "P03": dict(models=["MC_Swap"], ops="inv.swap|midc|inv.fix|inv.on", n=(5000, 60000)),
    "P04": dict(models=["MC_Mobius"], ops="mob.(pt|comp|inv|pow)|inv.comp", n=(5000, 60000)),
    "P05": dict(models=["MC_Mobius"], ops="mob.(circle|line)", n=(5000, 60000)),
    "P06": dict(models=["MC_Mobius"], ops="mob.(3pts|circ$|gpow|fixed)|cross", n=(5000, 60000)),
    "P07": dict(models=["MC_Affine"], ops="aff[.]", n=(5000, 60000), maxscen=(4000, 100000)),
    "P08": dict(models=["MC_Affine"], ops="map.law", n=(6000, 60000), maxscen=(4000, 100000), sims=(8, 20)),
    "P09": dict(models=["MC_Affine"], ops="fig", n=(5000, 60000), maxscen=(4000, 100000)),
    "P10": dict(models=["MC_Lines"], ops="line.(do|eq|par|perpq|inc)", n=(6000, 60000)),
    "P11": dict(models=["MC_Lines"], ops="line.(perp$|proj|rot|trans)", n=(6000, 60000)),
    "P12": dict(models=["MC_Lines", "MC_Circles"], ops="x[.]", n=(6000, 60000)),
    "P13": dict(models=["MC_Circles"], ops="power|rad|orthq|cangle|mem|circ[AO.]", n=(6000, 60000)),
    "P14": dict(models=["MC_Circles"], ops="orth[.]", n=(5000, 60000)),
    "P15": dict(models=["MC_Ellipse"], ops="ell.(eq$|shape|re|from|five|same)", n=(5000, 50000)),
    "P16": dict(models=["MC_Ellipse"], ops="ell.(path|pfa|t$|normal|diam|mem)|arc|circ.pfa", n=(6000, 60000)),
    "P17": dict(models=["MC_John"], ops="b3|b4|lj", n=(700, 9000), maxscen=(500, 6000)),
    "P18": dict(models=["MC_Triangle"], ops="tri.(in|circum|ex|malf|steiner)", n=(5000, 40000)),
    "P19": dict(models=["MC_Triangle"], ops="tri.(meas|contains|orthic|detour)", n=(6000, 60000)),
    "P20": dict(models=["MC_Steiner"], ops="steiner", n=(1800, 15000), maxscen=(1000, 20000)),
    "P21": dict(models=["MC_Uni"], ops="uni", n=(30, 80)),
    "P22": dict(models=["MC_Session"], ops="session", n=(9000, 90000), maxscen=(500, 6000), driver="session", trace="Session"),
    "P23": dict(models=["MC_Points"], ops="rpts", n=(700, 8000)),
    "P24": dict(models=["MC_Args"], ops="build", n=(1000, 10000), maxscen=(60000, 150000)),
    "P25": dict(models=["MC_Obj"], ops="obj", n=(5000, 40000), sims=(2, 6)),
}
