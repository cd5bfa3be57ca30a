"""Writes properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "python/lsst/skymap/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), level_note=None, na=None):
    P.append((dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[D + f for f in files],
                     mechanism=[dict(name=n, where=D + w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=D + w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)), level_note, na))


TI, TB, PI, CI = "tractInfo.py", "tractBuilder.py", "patchInfo.py", "cellInfo.py"
BS, CS, RS = "baseSkyMap.py", "cachingSkyMap.py", "ringsSkyMap.py"

prop("C01", "The inner regions of a tract's patches tile the tract exactly",
     "For every tract and every patch layout, legacy or cell based, the inner regions of the patches are pairwise "
     "disjoint, all have the configured dimensions, and together are exactly the pixels of the tract, which starts at "
     "pixel (0, 0). The patch with index (i, j) is the i-th in x and the j-th in y from the minimum corner, and "
     "iterating over a tract yields every patch exactly once.",
     ["inputs", "configurations"],
     "all tract sizes and positions, patch and cell dimensions, borders and patch indices within the stated bounds",
     "geometry tests need lsst.geom and only ever build a few tracts with one patch size",
     [TI, TB, PI],
     [("tract box grown to a whole number of patches", TB + " setupPatches"),
      ("inner box from index times dimensions", TB + " getPatchInfo")],
     ["TractInfo.getPatchInfo", "PatchInfo.getInnerBBox", "iteration over a TractInfo"])

prop("C02", "A tract's pixel box covers its region, grows minimally and stays centred",
     "For every tract given by vertices, the pixel positions of the points displaced from each vertex by half the tract "
     "overlap towards every 15 degrees of bearing (of the vertices themselves without overlap) fall inside the "
     "tract's pixel box; for tracts given by "
     "centre and radius the points at radius plus overlap north, east, south and west of the centre do. "
     "The box is the smallest whole number of patches per axis that holds them, the extra pixels are split evenly (to "
     "within one pixel) between the two sides, its minimum is (0, 0), and the tract's WCS is the given WCS with its "
     "pixel origin shifted by exactly the same amount.",
     ["inputs", "configurations"],
     "all pixel positions of the vertices and displaced points, patch dimensions, overlaps and radii within bounds",
     "rounding, odd remainders and extreme positions are not reached by a few sampled tracts",
     [TI, TB],
     [("minimum bounding box of displaced vertices", TI + " TractInfo._minimumBoundingBox, ExplicitTractInfo"),
      ("growth and shift", TB + " setupPatches; " + TI + " _finalOrientation")],
     ["TractInfo.getBBox", "TractInfo.getWcs"])

prop("C03", "A patch's outer region is its inner region plus the border",
     "For every patch the outer region extends past the inner region by the configured border on every side. In legacy "
     "tracts it is clipped at the tract's edge, so that it never leaves the tract and is unclipped where the border "
     "fits; in cell-based tracts the border is the configured number of border cells plus the cell border and is never "
     "clipped.",
     ["inputs", "configurations"], "all patch indices, tract sizes, patch dimensions and borders within bounds",
     "edge and corner patches with every combination of size and border cannot be sampled",
     [TB, PI], [("outer box grown and clipped", TB + " getPatchInfo of both builders")], ["PatchInfo.getOuterBBox"])

prop("C04", "Patch indices: pair and sequential forms agree, out of range is an error",
     "Within a tract with nx by ny patches the sequential index of patch (x, y) is nx*y + x; converting between the two "
     "forms in either direction is exact, and a patch can be fetched by a pair, an index tuple or a sequential index "
     "with the same result, which reports that index in both forms. Fetching a patch by a pair outside 0 <= x < nx, "
     "0 <= y < ny or by a sequential index that is negative or at least nx*ny raises IndexError, and iteration visits "
     "the patches in increasing sequential index.",
     ["inputs", "configurations"], "all index pairs and sequential indices, in and out of range, and all patch counts within bounds",
     "off-by-one and swapped-axis errors show only for particular indices and non-square tracts",
     [TI, TB, PI], [("index arithmetic", TB + " getSequentialPatchIndexFromPair, getPatchIndexPair, getPatchInfo")],
     ["TractInfo.getPatchInfo", "TractInfo.getSequentialPatchIndex", "TractInfo.getPatchIndexPair", "TractInfo[...]"])

prop("C05", "The cells of a patch tile it and line up with the cells of its neighbours",
     "For every cell-based patch the inner regions of its cells all have the configured dimensions, are disjoint, and "
     "together are exactly the patch's inner region extended by the configured number of border cells on each side; "
     "each cell's outer region is its inner region extended by the cell border and lies within the patch's outer "
     "region. Where two patches of a tract overlap, their cells coincide: every cell of one that lies within the "
     "extended inner region of the other has exactly the same inner and outer region as a cell of the other.",
     ["inputs", "configurations"], "all patch and cell indices, cell sizes, cell borders and cell counts within bounds",
     "needs every pair of neighbouring patches and every cell, for each configuration",
     [PI, CI, TB], [("cell boxes offset from the patch's inner box", PI + " getCellInfo"),
                    ("patch dimensions and border as multiples of the cell", TB + " CellTractBuilder")],
     ["PatchInfo.getCellInfo", "CellInfo.getInnerBBox", "CellInfo.getOuterBBox"])

prop("C06", "Cell indices: pair and sequential forms agree, out of range is an error",
     "A cell-based patch has n by n cells, n being the inner count plus twice the border count; the sequential index of "
     "cell (x, y) is n*y + x, both forms convert exactly into each other and fetch the same cell, which reports that "
     "index in both forms, and iteration visits the cells in increasing sequential index. Fetching a cell by any "
     "out-of-range pair or sequential index raises IndexError, as does fetching any cell of a patch without cells, "
     "which has length zero.",
     ["inputs", "configurations"], "all cell indices in and out of range and all cell counts within bounds",
     "off-by-one errors at the border cells show only for particular indices",
     [PI, CI], [("cell index arithmetic", PI + " getSequentialCellIndexFromPair, getCellIndexPair, getCellInfo")],
     ["PatchInfo.getCellInfo", "PatchInfo.getSequentialCellIndex", "PatchInfo.getCellIndexPair", "len(PatchInfo)"])

prop("C07", "Looking up the patch of a sky position agrees with the pixel geometry",
     "For every sky position, a tract contains it exactly when its pixel position, rounded to the nearest pixel, lies "
     "in the tract's box; then the patch found for it is the one whose inner region holds that pixel. Otherwise, or "
     "when the position has no pixel position at all, the tract does not contain it and looking up a patch raises "
     "LookupError.",
     ["inputs", "configurations"], "all sky positions, through arbitrary pixel positions, and all tract layouts within bounds",
     "positions on patch and tract edges are never sampled",
     [TI], [("pixel index divided by patch dimensions", TI + " findPatch"), ("box membership", TI + " contains")],
     ["TractInfo.findPatch", "TractInfo.contains"])

prop("C08", "The patches found for a list of positions are those its pixel box can touch",
     "For any list of sky positions, the patches found in a tract are exactly those whose inner region intersects the "
     "bounding box of the pixel positions grown by the patch border and clipped to the tract, each once; positions that "
     "have no pixel position are ignored. In particular every patch of a tract whose outer region holds one of the "
     "pixels is found, and the list is empty exactly when the grown box misses the tract.",
     ["inputs", "configurations"], "all lists of up to three positions, through arbitrary pixel positions, and all tract layouts within bounds",
     "lists straddling tract edges or far off the tract are not sampled",
     [TI], [("bounding box, growth, clipping", TI + " findPatchList")], ["TractInfo.findPatchList"])

prop("C09", "A tract does not depend on which other tracts were made before or after it",
     "A tract's box, patch count, patches, indices and patch look-ups are the same whatever other tracts of the sky map "
     "have been generated, in whatever order, before or after it. Two sky maps with the same configuration give "
     "identical tracts.",
     ["histories", "configurations"], "all orders of generating and using tracts of different sizes within bounds",
     "a test uses one order; sharing of state between tracts shows only when tracts differ in size",
     [TI, TB, CS], [("per-tract patch layout", TB + " setupPatches"), ("tract cache", CS + " __getitem__")],
     ["TractInfo.getPatchInfo", "TractInfo.getSequentialPatchIndexFromPair", "skymap[i]"],
     [("patch count and tract box of a builder", "layout of the tract last set up", TB + " setupPatches")])

prop("C10", "The inner regions of a ring sky map's tracts tile the sphere, and look-up agrees",
     "In every ring sky map the right ascension and declination ranges of the tracts partition the sphere: every "
     "position, away from the range boundaries, is in the range of exactly one tract (with the historical numbering "
     "scheme, apart from its duplicated and its missing tract). The tract found for a position is the one whose range holds it.",
     ["inputs", "configurations"], "all positions, starting right ascensions and ring counts within bounds, both numbering versions",
     "ring boundaries, wrap-around at the starting right ascension and the poles are sampled at best",
     [RS], [("declination to ring, right ascension to tract", RS + " findTract"), ("ranges", RS + " getRaDecRange")],
     ["RingsSkyMap.findTract", "RingsSkyMap.getRaDecRange"])

prop("C11", "Ring sky map numbering, ring indices and tract placement",
     "Tract 0 is centred on the south pole and the last tract on the north pole; between them tracts are numbered ring "
     "by ring northwards and, within a ring, eastwards from the starting right ascension at equal spacing, each centred "
     "in its right ascension and declination range, its projection referenced to that centre. Ring indices match "
     "that numbering (the historical scheme keeps its duplicated first tract and missing last-ring tract), and an index "
     "below zero or beyond the last tract raises IndexError. The overlap of the tracts has no part in this, and a sky map "
     "made without naming a numbering scheme has the current one.",
     ["inputs", "configurations"], "all tract indices, ring counts and starting right ascensions within bounds, both numbering versions",
     "off-by-one errors at ring boundaries show only for particular indices",
     [RS, CS], [("ring indices", RS + " getRingIndices"), ("centres", RS + " generateTract")],
     ["RingsSkyMap.getRingIndices", "RingsSkyMap[...].getCtrCoord"])

prop("C12", "Array look-up of tract ids agrees with looking positions up one at a time",
     "For every sky map and every array of positions, in radians or degrees, with any right ascension (wrapped or not), "
     "the array of tract ids has one entry per position equal to the id of the tract found for that position alone.",
     ["inputs", "configurations"], "all arrays of up to three positions, starting right ascensions, ring counts and both numbering versions within bounds",
     "the vectorised code is separate from the scalar code and is compared on random points at best",
     [RS, BS], [("vectorised look-up", RS + " findTractIdArray"), ("default loop", BS + " findTractIdArray")],
     ["findTractIdArray", "findTract"])

prop("C13", "All tracts listed for a position contain it, and none nearby is missed",
     "In a ring sky map every tract listed for a position contains it and, with the current numbering, is listed once. "
     "The tract found for the position, its two neighbours in the ring, the tracts at that right ascension in the "
     "adjacent rings and their neighbours, and both polar tracts are listed whenever they contain the position.",
     ["inputs", "configurations"], "all positions, starting right ascensions and ring counts within bounds; containment of each tract arbitrary",
     "wrap-around at the starting right ascension next to the poles is not sampled",
     [RS], [("ring and neighbour search", RS + " findAllTracts")], ["RingsSkyMap.findAllTracts"])

prop("C14", "The tract found for a position contains it",
     "In ring sky maps of at least five rings with an overlap of at least one degree (projections TAN and STG), in "
     "dodecahedral sky maps with the default projection and an overlap of 3.5 degrees or with TAN, and, within the "
     "declination band, in equatorial sky maps with the default projection and any positive overlap, the tract found for any "
     "position contains it: the position's pixel lies in the tract's box.",
     ["inputs", "configurations"], "all positions of the sphere (or band) for the listed configurations",
     "a sampled grid of positions can miss the corners where tracts only just reach each other",
     [RS, "dodecaSkyMap.py", "equatSkyMap.py", TI],
     [("tract radius and overlap", RS + " generateTract"), ("vertices", "dodecaSkyMap.py __init__")],
     ["findTract", "TractInfo.contains"])

prop("C15", "Without a faster method, look-up returns the tract with the nearest centre",
     "In sky maps that do not provide their own look-up, the tract found for a position is one whose centre is at the "
     "smallest angular separation from it, the lowest numbered one among equals.",
     ["inputs", "configurations"], "all sets of separations for up to five tracts",
     "ties and orderings are not sampled",
     [BS], [("sort by separation", BS + " findTract")], ["findTract"])

prop("C16", "Tracts and patches found for a list of positions are complete and consistent",
     "For every list of positions, the generic search pairs every tract that has patches there with exactly the "
     "patches that tract finds for the whole list, in tract order and each tract once; the closest-tract search does "
     "so for exactly the tracts found for the individual positions, and the ring sky map search for the tracts "
     "containing one of the positions. Tracts without patches there are left out, and a pair is never repeated.",
     ["inputs", "configurations"], "all outcomes of the per-tract searches for up to three positions and four tracts",
     "combinations of positions in different tracts are not sampled",
     [BS, RS], [("search loops", BS + " findTractPatchList, findClosestTractPatchList; " + RS + " findTractPatchList")],
     ["findTractPatchList", "findClosestTractPatchList"])

prop("C17", "Sky maps are equal, with equal hashes, exactly when configured alike",
     "Two sky maps of the same class with the same configuration are equal and have equal hashes and digests. Sky maps "
     "that differ in class, in patch layout, in tract overlap, pixel scale, projection or rotation, in a setting of "
     "their own class or in the numbering scheme of a ring sky map differ in digest and are unequal; comparison with an object that is not a sky map is false and not an error.",
     ["inputs", "configurations"], "all pairs of configurations of the same and of different classes and builders",
     "tests compare a few pairs; a setting left out of the digest goes unnoticed",
     [BS, TB, RS, "discreteSkyMap.py", "equatSkyMap.py", "dodecaSkyMap.py", "healpixSkyMap.py"],
     [("packed configuration", TB + " getPackedConfig"), ("class state", RS + " updateSha1 and the other classes'")],
     ["getSha1", "==", "hash"])

prop("C18", "Pickling and unpickling a sky map gives the same sky map",
     "For every sky map class, configuration and supported version, the unpickled sky map has the same class, "
     "configuration, version and number of tracts, is equal to the original, and numbers and places its tracts identically. "
     "A state recorded by a later version than the code supports is refused with RuntimeError.",
     ["inputs", "configurations"], "all configurations and versions of each class within bounds",
     "tests pickle one configuration per class",
     [CS, "equatSkyMap.py", "dodecaSkyMap.py"],
     [("reduce", CS + " __reduce__"), ("state", "equatSkyMap.py __getstate__, __setstate__")],
     ["pickle", "copy"])

prop("C19", "A sky map is a sequence of tracts that keeps returning the same ones",
     "For every sky map that generates tracts on request, length is the number of tracts, iteration yields the tracts "
     "with ids 0 to n-1 in order, indexing by i yields the tract with id i and the same object every time, whatever was "
     "asked for before, and a negative index or one not below the length raises IndexError.",
     ["inputs", "histories"], "all indices and all sequences of up to four accesses",
     "the sequence of accesses is fixed in a test",
     [CS], [("cache", CS + " __getitem__")], ["skymap[i]", "iter(skymap)", "len(skymap)"])

prop("C20", "A discrete sky map has exactly the configured tracts",
     "A discrete sky map has one tract per configured position, in order, each centred on it with its configured radius "
     "plus the overlap, using the configured projection; a configuration whose lists of right ascension, declination "
     "and radius differ in length is rejected on validation.",
     ["inputs", "configurations"], "all positions, radii and overlaps for up to three tracts, and all list lengths up to three",
     "a few positions are sampled",
     ["discreteSkyMap.py", TI], [("placement", "discreteSkyMap.py generateTract"), ("lengths", "discreteSkyMap.py validate")],
     ["DiscreteSkyMap[...]", "DiscreteSkyMapConfig.validate"])

prop("C21", "An equatorial sky map divides its declination band evenly in right ascension",
     "An equatorial sky map has the configured number of tracts, numbered eastwards from right ascension zero; tract i "
     "spans right ascension i to i+1 times the full circle over the number of tracts and the whole declination range, "
     "is centred on it, and its projection is referenced to the equator at the central right ascension.",
     ["inputs", "configurations"], "all tract counts and declination ranges within bounds",
     "one configuration is sampled",
     ["equatSkyMap.py"], [("vertices and centre", "equatSkyMap.py __init__")],
     ["EquatSkyMap[...].getVertexList", "getCtrCoord"])

prop("C22", "A dodecahedral sky map is a dodecahedron and finds the face of a position",
     "The twelve face centres are those of a regular dodecahedron with a face (or, by configuration, a vertex) at each "
     "pole, the first at the north and the last at the south, sorted by falling declination and rising right ascension; "
     "each tract's five vertices are those of its face in order around it. The tract found for any position is the "
     "one whose face centre is nearest.",
     ["inputs", "configurations"], "all positions of the sphere and both orientations",
     "positions near face edges are not sampled",
     ["dodecaSkyMap.py", "detail/dodecahedron.py"],
     [("largest projection", "detail/dodecahedron.py getFaceInd"), ("vertices", "detail/dodecahedron.py getVertices")],
     ["DodecaSkyMap.findTract", "DodecaSkyMap[...].getVertexList"])

prop("C23", "Registration records exactly the sky map, in one transaction",
     "Registering a sky map records its name, digest, tract count and largest patch counts and, when that record is "
     "new, exactly one record per tract with its outer region and one per patch, after its tract's, with its index in both "
     "forms and its outer region, and finally stores the sky map itself under its name in the collection skymaps; all of "
     "this happens within a single transaction, the collection and dataset type being registered outside it. When the "
     "record already exists nothing else is recorded or stored, a conflicting definition is reported as such before anything else "
     "is recorded, and a failure at any step leaves the transaction by that error, with nothing recorded after it.",
     ["inputs", "crash_points", "fault_sequences"], "all tract and patch counts within bounds, new or existing records, failure at every call to the registry",
     "needs a fault at each registry call, for tracts of different sizes",
     [BS], [("transaction", BS + " register")], ["registry calls"])

prop("C24", "Unpacking a packed data ID gives the data ID back",
     "For every configuration of the packer, with a fixed, an enumerated or an arbitrary band numbering or without "
     "bands, packing a data ID whose tract, patch and band are in range and unpacking the result gives the same sky "
     "map, tract, patch and band.",
     ["inputs", "configurations"], "all counts, tracts, patches and band numberings of up to three bands within bounds",
     "tests use the default numbering and one sky map",
     ["packers.py"], [("positional notation", "packers.py _pack, unpack")], ["pack", "unpack"])

prop("C25", "Packed data IDs are distinct, fit the advertised bits; bad IDs are rejected",
     "Distinct data IDs in range pack to distinct non-negative integers that fit in the advertised number of bits. A "
     "data ID with a tract, patch or band number outside its configured range, negative included, or with an unknown band, is rejected with ValueError "
     "rather than packed.",
     ["inputs", "configurations"], "all counts, tracts, patches and band numberings of up to three bands within bounds",
     "aliasing shows only for particular combinations of counts and ids",
     ["packers.py"], [("range checks", "packers.py _pack"), ("bit count", "packers.py maxBits")], ["pack", "maxBits"])

prop("C26", "Sky regions of tracts, patches and cells are the sky images of their pixel boxes",
     "The outer sky region of a tract and the inner and outer sky regions of every patch and cell are the polygons of "
     "the sky positions, under the tract's WCS or one passed in, of the four corners of exactly the corresponding "
     "pixel box, half a pixel beyond its first and last pixel centres.",
     ["inputs", "configurations"], "all tract layouts, patch and cell indices within bounds",
     "which box and which WCS is used cannot be told from a few polygons",
     [TI, PI, CI, "detail/utils.py"], [("corners", "detail/utils.py makeSkyPolygonFromBBox")],
     ["getOuterSkyPolygon", "getInnerSkyPolygon"])

prop("C27", "A tract's inner sky region is its range or the polygon of its vertices",
     "The inner sky region of a ring sky map's tract is the box of its right ascension and declination range; that of "
     "any other tract is the convex hull of its vertices, which for tracts given by centre and radius are the corners of "
     "the pixel box drawn in by a thousandth of a pixel, so that they lie inside the tract.",
     ["inputs", "configurations"], "all tracts of ring sky maps and all tract layouts within bounds",
     "each tract has its own range",
     [TI, RS], [("box or hull", TI + " getInnerSkyRegion"), ("corners", RS + " generateTract")],
     ["getInnerSkyRegion", "getVertexList"])

prop("C28", "Configuration short-cuts, validation and freezing of sky maps",
     "The patch dimensions and border set or read through the sky map configuration are those of the legacy patch "
     "layout; a cell layout is accepted exactly when its cells are square; ring configurations are accepted exactly "
     "for a positive ring count and a starting right ascension in [0, 360). A sky map freezes its configuration, so "
     "that later changes are refused and the sky map stays the same.",
     ["inputs", "configurations"], "all values of these settings within bounds",
     "limits are not sampled",
     [BS, TB, RS], [("properties", BS + " BaseSkyMapConfig"), ("checks", TB + " validate; " + RS + " RingsSkyMapConfig")],
     ["BaseSkyMapConfig"])

prop("C29", "Every tract's WCS has the configured scale, projection, rotation and centre",
     "The WCS of every tract of every sky map uses the configured projection, has the configured pixel scale and "
     "rotation and standard handedness at its reference position, and is referenced to the tract's centre (to the "
     "equator at the central right ascension for equatorial maps).",
     ["inputs", "configurations"], "all pixel scales, rotations and tract centres within bounds",
     "one configuration per class is sampled",
     [BS, "detail/wcsFactory.py"], [("factory", "detail/wcsFactory.py"), ("settings", BS + " __init__")],
     ["TractInfo.getWcs"])

prop("C30", "A HEALPix sky map's tracts are the HEALPix pixels",
     "A HEALPix sky map has one tract per pixel at its resolution. Tract i is centred on pixel i in the configured "
     "ordering, its projection referenced to that centre, and has that pixel's four corners as vertices, HEALPix "
     "colatitude being counted from the south pole (latitude = theta - 90 degrees). The tract found for a position is "
     "the pixel holding it under the same convention, so that the centre of a tract finds that tract.",
     ["inputs", "configurations"], "all pixels and positions, both orderings, resolutions within bounds",
     "each pixel has its own position",
     ["healpixSkyMap.py"], [("look-up", "healpixSkyMap.py findTract"), ("placement", "healpixSkyMap.py generateTract")],
     ["HealpixSkyMap.findTract", "HealpixSkyMap[...]"])

prop("C31", "A sky map's digest is that of its recorded definition",
     "The digest of a sky map is the SHA-1 of, without padding and little-endian: the name of its class; for the legacy "
     "layout the patch dimensions and border, for the cell layout the cell dimensions, cell border, inner cells and "
     "border cells, as 32-bit integers; tract overlap and pixel scale as doubles, the three letters of the projection, "
     "the rotation as a double; then for ring maps the ring count (32-bit) and starting right ascension (double), for "
     "discrete ones all right ascensions, declinations and radii (doubles), for equatorial ones the tract count (32-bit) "
     "and declination range (doubles), for dodecahedral ones the pole option (one byte), for HEALPix ones the resolution "
     "(32-bit) and ordering (one byte). A sky map registered by an earlier release is therefore recognised by its digest.",
     ["inputs", "configurations"], "all settings of every class and layout within bounds",
     "tests compare digests within one release only",
     [BS, TB, RS, "discreteSkyMap.py", "equatSkyMap.py", "dodecaSkyMap.py", "healpixSkyMap.py"],
     [("digest", BS + " getSha1"), ("layout", TB + " getPackedConfig"), ("class settings", "updateSha1 of every class")],
     ["BaseSkyMap.getSha1"])

prop("C32", "A packer has room for every patch of a registered sky map",
     "A packer made without explicit counts takes them from the sky map's dimension record, so that every patch of every "
     "tract of a registered sky map can be packed and is found again; explicit tract and patch counts take precedence, "
     "each on its own, and exactly the tracts and patches below the counts are packed. Its dimensions are those given, or "
     "tract and patch, with band exactly when the number of bands is not zero; given dimensions other than tract and patch, "
     "with or without band, raise ValueError, and without bands no room is left for them.",
     ["inputs", "configurations"], "all registered patch counts, given counts, tracts, patches and dimension groups within bounds",
     "registration and packing are tested apart, with one set of counts",
     ["packers.py", BS], [("defaults", "packers.py __init__, from_config"), ("record", BS + " register")],
     ["SkyMapDimensionPacker", "BaseSkyMap.register"])

prop("C33", "Patches and cells are equal exactly when they are the same",
     "Two patches are equal exactly when their index, inner region, outer region, numbers of cells and cell border agree, "
     "two cells when their index, inner and outer region agree; inequality is the opposite of equality, and equality is "
     "symmetric. Within a tract two patches, within a patch two cells, are equal exactly when their indices are.",
     ["inputs", "configurations"], "all indices, regions and cell counts within bounds",
     "differences in a single corner are not sampled",
     [PI, CI, TI], [("comparison", PI + " __eq__; " + CI + " __eq__")], ["PatchInfo.__eq__", "CellInfo.__eq__"])

prop("C34", "Sky maps and patch layouts chosen by name are those made directly",
     "Each of the names dodeca, equat, discrete, rings and healpix in the registry of sky maps makes a sky map of its class, "
     "equal to one made directly with the same settings and with as many tracts, whether through the registry or a "
     "configuration field; an unknown name is a KeyError. The patch layout is legacy unless another is chosen by name; the "
     "settings of the layout not chosen do not affect the sky map.",
     ["inputs", "configurations"], "all settings of every class and layout within bounds",
     "each class is tested with one configuration, made directly",
     ["skyMapRegistry.py", TB, BS], [("names", "skyMapRegistry.py"), ("layouts", TB + " tractBuilderRegistry"),
                                     ("layout applied", BS + " __init__")],
     ["skyMapRegistry", "BaseSkyMapConfig.tractBuilder"])

prop("C35", "Changing a box or size a tract has returned changes nothing it returns later",
     "However a tract's box, or a patch's or cell's inner or outer box fetched from the tract, or the patch or cell dimensions they "
     "report, are modified by their receiver, the tract's box, patch count and patch dimensions and all patches and cells fetched from "
     "it afterwards are as before, and other tracts are divided as they would have been.",
     ["histories", "inputs"], "all modifications of returned boxes, patches and cells within bounds",
     "tests do not modify what they are given",
     [TI, TB, PI], [("copy of the box", TI + " getBBox"), ("patches made anew", TB + " getPatchInfo"), ("cells made anew", PI + " getCellInfo")],
     ["TractInfo.getBBox", "PatchInfo.getInnerBBox", "CellInfo.getOuterBBox"])

prop("C36", "The coordinate of a vector points along it, poles included",
     "The coordinate made from a vector is in the direction of the vector whatever its length and whether or not a default "
     "right ascension is given; for a vector along the axis (both x and y smaller than the smallest normal number) it is the "
     "north or south pole, by the sign of z, with the given right ascension, and RuntimeError if none is given.",
     ["inputs"], "all vectors and right ascensions within bounds",
     "vectors with one zero component or barely off the axis are not sampled",
     ["detail/utils.py", "dodecaSkyMap.py"], [("pole test", "detail/utils.py coordFromVec")], ["lsst.skymap.detail.coordFromVec"])

prop("C37", "Sky maps and packers do not influence one another",
     "What a sky map gives (tract numbers, boxes, WCSs, patches, cells, regions, look-ups, digest) depends on its own settings "
     "only: it is the same whether or not another sky map was made and used in the same process before it was made, before it was "
     "used, or between two uses of it, whatever that other's settings. What a packer gives likewise depends only on what it was made from.",
     ["inputs", "histories"], "all pairs of sky maps of one class that differ in any one setting, within bounds",
     "tests make each sky map alone and never compare it with itself in company",
     [BS, CS, TI, TB, PI, "packers.py", "detail/wcsFactory.py"],
     [("tracts kept", CS + " CachingSkyMap"), ("builders", TB + " BaseTractBuilder"), ("WCS factory", "detail/wcsFactory.py WcsFactory")],
     ["lsst.skymap.RingsSkyMap", "lsst.skymap.SkyMapDimensionPacker"])

prop("C38", "Tracts reach beyond their inner regions by the configured overlap",
     "Tracts overlap their neighbours as configured: a tract given by a centre and radius (discrete and ring sky maps; gnomonic or "
     "stereographic projection) holds every position within radius plus overlap of its centre; a dodecahedral tract holds every "
     "position within half the overlap of its face, and an equatorial tract every position within half the overlap of its right "
     "ascension and declination range (up to two percent of that half, as tract edges are laid out through their vertices only).",
     ["inputs"], "every position on the sky within that reach; listed radii, overlaps, projections",
     "tests look up tract centres and a few points, never the extent of a tract beyond its region",
     [TI, TB, "dodecaSkyMap.py", "equatSkyMap.py", "ringsSkyMap.py", "discreteSkyMap.py"],
     [("tract's pixel box", TI + " ExplicitTractInfo.__init__, _minimumBoundingBox"), ("overlap of vertices", TI + " TractInfo._minimumBoundingBox")],
     ["lsst.skymap.TractInfo", "lsst.skymap.ExplicitTractInfo"])

prop("C39", "Tracts, patches and cells tell what they are",
     "What a tract, patch or cell says of itself agrees everywhere it says it: each getter gives what its attribute gives; the tract's "
     "number, centre, overlap and vertices are those the sky map gave it; its patch border and inner patch "
     "dimensions are those configured; its patches and their cells are described by the tract's own WCS; patches and cells have the "
     "index (pair and sequential, rows of the lower left first) they were asked for, and the configured sizes and borders.",
     ["inputs"], "every configuration and index within bounds", "tests compare a few getters with constants for single configurations",
     [TI, TB, PI, "cellInfo.py"],
     [("tract", TI + " TractInfo"), ("patch", PI + " PatchInfo"), ("cell", "cellInfo.py CellInfo")],
     ["lsst.skymap.TractInfo", "lsst.skymap.PatchInfo", "lsst.skymap.CellInfo"])

NOTE = ("Bounded: holds for every value within the bounds printed in the evidence. Trusts z3/cvc5, the executor in symx/, "
        "the models of lsst.geom and lsst.afw.geom in models/; each counterexample and a sample of paths is replayed on the real code.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note, why in P:
        if why or not os.path.isfile(os.path.join(HERE, "props", p["id"].lower() + ".py")):
            na.append(dict(property=p["id"], reason=why or "check not built yet"))
            continue
        cmd = "/opt/venv/bin/python run.py %s --tier " % p["id"]
        checks.append(dict(property=p["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
                           technique="symbolic execution of the real Python code with z3 (bounded), cvc5 cross-check, replay",
                           level="model_checking", level_note=note or NOTE))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python run.py --list", checks=checks, not_applicable=na,
                       notes="See DESIGN.md. Every check loads lsst.skymap from /repo's working tree."), f, indent=1)
        f.write("\n")
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]


main()
