"""What each check runs: design specifications, families of sessions, trace specifications."""

ASSUMPTIONS = [
    "the Go toolchain, TLC and the JSON reader of the TLA+ community modules are right",
    "the driver records what the public API returned (verdicts are TLC's, on recorded sessions)",
]

# family of the driver: trace specification, generator (module, quick cfg, thorough cfg)
FAMILIES = {
    "rset": {"trace": "ResourceSetTrace", "gen": ("ResourceSetGen", "ResourceSetGen.cfg", "ResourceSetGenT.cfg")},
    "object": {"trace": "ObjectTrace", "gen": ("RsrcLayout", "RsrcLayoutGen.cfg", "RsrcLayoutGenT.cfg")},
    "canon": {"trace": "ResourceSetTrace"},
    "exe": {"trace": "ExeTrace", "gen": ("PEPatchGen", "PEPatchGen.cfg", "PEPatchGenT.cfg")},
    "load": {"trace": "ExeTrace"},
    "sum": {"trace": "ExeTrace"},
    "icon": {"trace": "IconTrace", "gen": ("IconAllocGen", "IconAllocGen.cfg", "IconAllocGenT.cfg")},
    "cursor": {"trace": "IconTrace", "gen": ("IconAllocGen", "IconAllocGen.cfg", "IconAllocGenT.cfg")},
    "icofile": {"trace": "IconTrace"},
    "pix": {"trace": "IconTrace", "gen": ("Squares", "SquaresGen.cfg", "SquaresGenT.cfg")},
    "version": {"trace": "VersionTrace", "gen": ("VersionMerge", "VersionMergeGen.cfg", "VersionMergeGenT.cfg")},
    "verbin": {"trace": "VersionTrace", "gen": ("VersionCodec", "VersionCodecGen.cfg", "VersionCodecGenT.cfg")},
    "verjson": {"trace": "VersionTrace"},
    "io": {"trace": "IoTrace"},
    "robust": {"trace": "RobustTrace", "gen": ("ApiGraph", "ApiGraphGen.cfg", "ApiGraphGen.cfg")},
    "hostile": {"trace": "RobustTrace", "gen": ("Hostile", "Hostile.cfg", "HostileT.cfg")},
    "setters": {"trace": "SettersTrace", "gen": ("Setters", "SettersGen.cfg", "SettersGenT.cfg")},
    "manifest": {"trace": "ManifestTrace", "gen": ("ManifestGen", "ManifestCases.cfg", "ManifestCasesT.cfg")},
    "manread": {"trace": "ManifestTrace"},
    "manjson": {"trace": "ManifestTrace", "gen": ("ManifestGen", "ManifestCases.cfg", "ManifestCasesT.cfg")},
}

IMPL = ("MCResourceSetImpl", "MCResourceSetImpl.cfg", "MCResourceSetImplT.cfg")
ICONALLOC = ("IconAlloc", "IconAlloc.cfg", "IconAllocT.cfg")
VERCODEC = ("VersionCodec", "VersionCodec.cfg", "VersionCodecT.cfg")
VERLIES = ("VersionCodec", "VersionCodecLies.cfg", "VersionCodecLiesT.cfg")
VERMERGE = ("VersionMerge", "VersionMerge.cfg", "VersionMergeT.cfg")
MANIFEST = ("ManifestGen", "ManifestGen.cfg", "ManifestGenT.cfg")
PEPATCH = ("PEPatch", "PEPatch.cfg", "PEPatchT.cfg")
IOPATCH = ("IoPatch", "IoPatch.cfg", "IoPatchT.cfg")
BOUNDS = ("Bounds", "Bounds.cfg", "BoundsT.cfg")
APIGRAPH = ("ApiGraph", "ApiGraph.cfg", "ApiGraphT.cfg")
SQUARES = ("Squares", "Squares.cfg", "SquaresT.cfg")
SETTERS = ("Setters", "Setters.cfg", "SettersT.cfg")
LAYOUT = ("RsrcLayout", "RsrcLayout.cfg", "RsrcLayoutT.cfg")

PROPS = {
    "C01": {"level": "model_checking", "design": [IMPL], "families": ["rset"]},
    "C02": {"level": "model_checking", "design": [IMPL], "families": ["rset"]},
    "C03": {"level": "model_checking", "design": [LAYOUT], "families": ["object"]},
    "C04": {"level": "model_checking", "design": [LAYOUT], "families": ["object"]},
    "C05": {"level": "model_checking", "design": [IMPL], "families": ["canon"]},
    "C06": {"level": "model_checking", "design": [PEPATCH], "families": ["exe", "load"]},
    "C07": {"level": "model_checking", "design": [LAYOUT], "families": ["load"]},
    "C08": {"level": "model_checking", "design": [PEPATCH], "families": ["exe"]},
    "C09": {"level": "model_checking", "design": [PEPATCH], "families": ["exe"]},
    "C10": {"level": "model_checking", "design": [PEPATCH], "families": ["sum"]},
    "C11": {"level": "model_checking", "design": [PEPATCH], "families": ["exe"]},
    "C12": {"level": "model_checking", "design": [IOPATCH], "families": ["io"]},
    "C13": {"level": "model_checking", "design": [ICONALLOC], "families": ["icon"]},
    "C14": {"level": "model_checking", "design": [ICONALLOC], "families": ["cursor"]},
    "C15": {"level": "model_checking", "design": [ICONALLOC], "families": ["icofile", "icon", "cursor"]},
    "C16": {"level": "model_checking", "design": [SQUARES], "families": ["pix"]},
    "C17": {"level": "model_checking", "design": [VERCODEC, VERLIES], "families": ["verbin"]},
    "C18": {"level": "model_checking", "design": [], "families": ["version"]},
    "C19": {"level": "model_checking", "design": [VERMERGE], "families": ["version"]},
    "C20": {"level": "model_checking", "design": [], "families": ["verjson"]},
    "C21": {"level": "model_checking", "design": [MANIFEST], "families": ["manifest", "manread"]},
    "C22": {"level": "model_checking", "design": [], "families": ["manjson"]},
    "C23": {"level": "model_checking", "design": [BOUNDS, APIGRAPH], "families": ["robust", "hostile"]},
    "C24": {"level": "model_checking", "design": [SETTERS], "families": ["setters"]},
}
