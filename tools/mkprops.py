"""Regenerates properties.jsonl (single source for titles and statements)."""
import json, os
P = []


def add(pid, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(qtext.split())},
              "why_tests_cant": " ".join(why.split()), "anchors": a})


B = "ocbpy/_boundary.py"
C = "ocbpy/cycle_boundary.py"
S = "ocbpy/ocb_scaling.py"
V = "ocbpy/vectors.py"
T = "ocbpy/ocb_time.py"

add("P01", "Cycling visits exactly the good boundary records, in order",
    """Stepping through a loaded boundary visits, in file order and without skipping or repeating,
    exactly the records after the current one whose figure of merit lies within the inclusive
    instrument (or caller-supplied) limits and that satisfy every caller-supplied criterion on any
    loaded quantity (strict or inclusive minimum or maximum, or equality), and then runs off the end.
    Asking for all good records returns exactly that set for the whole file, whatever the current
    position, and leaves the current position as it was.""",
    ["inputs", "histories"],
    """every boundary file of up to five records with qualities below, at, between, at and above the limits,
    every starting position, every criterion kind on several quantities, single and combined""",
    """The tests walk two fixed files with a few criteria; the guarantee quantifies over every pattern of
    good and bad records, every start position and every combination and equality edge of the criteria.""",
    [B, C], [("get_next_good_ocb_ind", B), ("retrieve_all_good_indices", C)],
    [("rec_ind", "current record", B), ("min_fom/max_fom", "instrument quality limits", B)])

add("P02", "Data times are matched to the nearest good boundary in tolerance",
    """Scanning time-ordered data against a time-ordered boundary set pairs a data time with a boundary
    only if that boundary is good, is no further away than the tolerance (inclusive), and no other good
    boundary at or after the scan position is nearer. Restarting the scan after each pair, every data
    time that has a good boundary within the tolerance is paired exactly once, in order, and no other
    data time is, for single and dual boundaries, until the data or the boundaries are exhausted.
    When nothing is left to match the scan always terminates and reports it without an error.""",
    ["inputs", "histories"],
    """every strictly increasing pattern of up to four boundary times and non-decreasing pattern of up to
    four data times on a small time grid, every quality mask, tolerances at, below and above the gaps,
    every legal starting cursor, with and without custom criteria""",
    """Tests use the two shipped files with a handful of hand-picked data times; ties, tolerance edges,
    gaps, repeated data times, exhausted lists and restarts can only be covered by enumerating patterns.""",
    [C], [("match_data_ocb", C)], [("rec_ind", "boundary cursor moved by matching", B)])

add("P03", "Dual boundaries pair good, nearest-in-time EAB and OCB records",
    """The paired records of a dual boundary are those good poleward records that have a good equatorward
    record within the maximum time difference (inclusive), in time order, each record used at most once,
    with each pair's reported time equal to that of the poleward record. Selection with custom quality
    limits or criteria for either boundary re-pairs by the same rule, and re-pairing with the defaults
    restores the original pairing.""",
    ["inputs", "configurations", "histories"],
    """every pair of boundary files of up to three or four records on a small time grid with every quality mask,
    several maximum differences, and every sequence of re-selections up to depth two""",
    """Tests use one pair of files and one or two selections; pairing depends on the whole relative
    arrangement of two time series and on the previous selections.""",
    [B, C], [("set_good_ind", B), ("match_data_ocb", C)],
    [("ocb_ind, eab_ind, dtime, records", "the pairing", B)])

add("P04", "Dual cursor moves both boundaries together; results depend only on it",
    """After any sequence of cursor moves, selections, matches, coordinate conversions, vector conversions
    and boundary calculations, the current record of each member of a dual boundary is the one paired at
    the current dual position, or out of range when the dual position is out of range. What a conversion
    returns for single and dual boundaries depends only on the current record and the arguments, never on
    what was called before, and conversions and look-ups that take the current record do not move it.""",
    ["histories"],
    """every operation sequence up to a stated depth over single and dual boundaries, from the initial state,
    deduplicated on the observable state""",
    """Tests call each operation on a fresh object, in one order; hidden coupling between cursor, caches and
    conversions only shows in particular multi-step histories.""",
    [B, C, S], [("rec_ind setter", B), ("set_good_ind", B), ("set_ocb", S)],
    [("rec_ind of dual, ocb and eab", "the cursors", B),
     ("aacgm_boundary_lat/mlt/lon", "cached boundary locations", B)])

add("P05", "Boundary-relative coordinates are correct and invert exactly",
    """Normalised coordinates place a point by its planar offset from the boundary centre, scaled by the
    reference colatitude over the boundary radius including the local-time correction, in the hemisphere
    of the boundary, with latitude signed by that hemisphere and local time in [0, 24); a point on the
    boundary of a centred circle falls on the reference latitude. Reverting normalised coordinates with
    the returned correction recovers the original location. Points in the other hemisphere, undefined
    (NaN) points and all points when no record is selected come back as NaN without affecting other
    points.""",
    ["inputs", "configurations"],
    """every combination of hemisphere, boundary geometry, reference latitude, correction function with and
    without keyword arguments, latitude, local time (in and out of range) and input shape from the stated
    alphabets""",
    """Tests compare a few points of one record per hemisphere; the guarantee is over every record, every
    location, every correction function and every mix of scalar and array inputs.""",
    [B], [("OCBoundary.normal_coord", B), ("OCBoundary.revert_coord", B)])

add("P06", "Dual-boundary coordinates: three regions, continuous and invertible",
    """With a dual boundary, locations poleward of the open-closed boundary get its normalised latitude,
    locations between the boundaries map linearly in latitude at fixed magnetic local time onto the band between
    the two reference latitudes, and locations equatorward map linearly from equator to the equatorward
    reference, in both hemispheres and continuously at the boundaries. Reverting recovers the original
    latitude and local time. The scaled and unscaled radii reported for a location are those of its
    region: the reference and actual polar cap radius, auroral band width or equatorward latitude.""",
    ["inputs", "configurations"],
    """every combination of hemisphere, pair geometry, reference latitudes, correction functions, region
    (including points on and just beside each boundary), local time and input shape from the alphabets""",
    """Tests check one pair per hemisphere at a few locations; region edges, mixed-region arrays and
    non-default references and corrections are not exercised.""",
    [B], [("DualBoundary.normal_coord", B), ("DualBoundary.revert_coord", B), ("calc_r", B)])

add("P07", "Boundary locations lie on the boundary; caches change only on request",
    """The magnetic latitude computed for a boundary at a local time is a point that lies on that boundary
    (its distance from the boundary centre is the corrected radius), in the boundary's hemisphere, or NaN
    where the boundary has no point at that local time, and the stored local times and longitudes belong to
    the stored latitudes. Stored locations of a record change only when computed for the first time or when
    overwriting is requested, for that record only; coordinate conversions without overwriting leave
    previously stored locations as they were.""",
    ["inputs", "histories"],
    """every sequence up to a stated depth of boundary calculations (record selections, local-time arrays and
    scalars, overwrite and longitude flags) and conversions, over single and dual boundaries with several
    geometries""",
    """Tests run one or two calls per object; which stored value survives depends on the sequence of calls
    and their flags.""",
    [B], [("get_aacgm_boundary_lat", B), ("get_aacgm_boundary_lats", B),
          ("_get_current_aacgm_boundary", B)],
    [("aacgm_boundary_lat/mlt/lon", "stored locations per record", B)])

add("P08", "Public operations never modify what the caller passed in",
    """No public conversion, selection, matching, loading, scaling or boundary-calculation operation changes
    the arrays, lists or dictionaries passed to it, whatever their type, values or writability, and two
    results or stored values never share memory with the caller's arrays so that changing one later changes
    the other. Integer and read-only arrays give the same numerical results as writable float arrays.""",
    ["inputs", "programs"],
    """every public operation with every argument drawn as list, writable, read-only, integer and
    out-of-range/NaN/mixed-hemisphere arrays from the alphabets""",
    """Tests look at outputs, not at the inputs afterwards, and only pass float arrays that need no
    adjustment.""",
    [B, C, S, V, T, "ocbpy/instruments/general.py", "ocbpy/instruments/pysat_instruments.py"],
    [("np.asarray input casting", B), ("fix_range", T)])

add("P09", "Angle and local-time arithmetic is cyclic, in range and invertible",
    """Converting between degrees, radians, hours, solar local time and geographic longitude, and wrapping
    values into a range, returns for every finite input a value congruent to the exact conversion modulo
    one turn (or the stated range) and inside the documented half-open interval, element by element for any
    shape, with NaN staying NaN. Values already inside the interval come back unchanged, and converting
    there and back returns the original modulo one turn.""",
    ["inputs"],
    """every value of a grid over several turns including every multiple of the range end-points and their
    floating-point neighbours and tiny and negative values, as scalars, arrays, integers and lists, for
    several intervals and times""",
    """Tests use about ten values; wrap-around errors appear at exact interval ends, negative multiples,
    several turns away and in mixed arrays.""",
    [T], [("fix_range", T), ("deg2hr, hr2deg, hr2rad, rad2hr", T), ("slt2glon, glon2slt", T)])

add("P10", "Every supported time format converts to the same calendar instant",
    """Each supported way of writing a time (year and second of year, years since 1900 and day of year with
    or without second of day or time of day, and date with optional time in any given format) converts to
    the calendar instant it denotes, to within the rounding of its resolution, including leap days, year
    ends and fractional seconds.""",
    ["inputs"],
    """every day of leap and non-leap years at the stated second grid including both ends of every minute,
    hour and day and fractional seconds around them, through every format""",
    """Tests convert one instant per format; errors occur at particular seconds, days and years.""",
    [T], [("year_soy_to_datetime", T), ("yyddd_to_date", T), ("convert_time", T), ("datetime2hr", T)])

add("P11", "Loading a boundary file yields exactly its records in the time window",
    """Loading a boundary file yields one record for each line whose time lies in the inclusive requested
    window, in file order, with every column's value attached to its own time, the centre in polar form
    consistent with the file's Cartesian or polar values, the instrument's documented quality limits and the
    correction function and arguments given for that record. Files and windows with one or no record load
    without error, and the reference latitude always has the sign of the hemisphere.""",
    ["inputs", "configurations"],
    """every supported instrument and boundary class, hemisphere, one to five records (and a window leaving zero), every
    window of record times and times just beside them, and every form of correction function and arguments""",
    """Tests load a few shipped multi-record files with one window; single records, boundary-inclusive
    windows and per-record corrections are not covered.""",
    [B], [("OCBoundary.load", B), ("inst_defaults", B), ("_set_default_rfunc", B)])

add("P12", "A vector array behaves exactly like its elements taken one by one",
    """Converting an array of vectors with one boundary record, one vector with several records, or arrays of
    both gives, element by element, the same locations, components, magnitudes, radii, quadrants and pole
    angles as converting each vector alone, including elements that are undefined. Changing the data or boundary indices of a
    vector object discards results derived from the previous ones, and converting again equals a fresh
    conversion.""",
    ["inputs", "histories"],
    """every arrangement of up to three vectors and records from the alphabet (including NaN, zero and special
    angles), scaled and unscaled, and every sequence of re-indexing and conversion up to a stated depth""",
    """Tests compare stored numbers for a few arrays; equality of the scalar and array code paths for every
    mix, and re-use of an object, is not tested.""",
    [S, V], [("VectorData.set_ocb", S), ("scale_vector", S), ("adjust_vector", V)],
    [("ocb_* attributes", "results", S), ("dat_ind, ocb_ind", "indices", S)])

add("P13", "Vectors are turned by exactly the angle between the two poles",
    """Re-expressing a vector relative to the boundary pole rotates its horizontal part by the spherical
    angle at the vector's location between the magnetic pole and the boundary pole, and nothing else:
    horizontal magnitude and vertical component are preserved, north and east components equal the
    projections on the direction toward the boundary pole and on the direction 90 degrees clockwise from it.
    This holds for every relative position of pole and location, including a pole exactly north or south of
    it, and every vector direction, including along the axes and purely vertical.""",
    ["inputs", "configurations"],
    """every combination on a dense grid of pole colatitude and local time, data latitude and local time and
    vector azimuth (all quadrants, axes and aligned cases), as scalars and arrays""",
    """Tests pin a table of quadrant cases computed with the code itself; correctness against an independent
    rotation over all positions and directions is not tested.""",
    [V, S], [("calc_vec_pole_angle", V), ("define_pole_quadrants", V), ("calc_dest_polar_angle", V),
             ("calc_dest_vec_sign", V), ("adjust_vector", V)])

add("P14", "Scaled quantities use the boundary's own radius and the right power",
    """Every scaled quantity equals the unscaled one times the ratio of the boundary's corrected radius at
    that record and local time to the reference radius, to the first power for electric-field-like and the
    second power for curl-like quantities, and unscaled when no scaling function is given. A scaled vector
    is the rotated vector times that factor in every component and in magnitude, for single and dual
    boundaries.""",
    ["inputs", "configurations"],
    """every boundary class, hemisphere, record, correction, reference latitude, scaling function (none,
    both built-ins, a custom one) and vector from the alphabets, as scalars and arrays""",
    """Tests compare stored numbers for one record; the choice of record, reference and correction and
    the scalar path with several components are not tested independently.""",
    [S], [("normal_evar", S), ("normal_curl_evar", S), ("scale_vector", S), ("set_ocb", S)])

add("P15", "SuperMAG conversion writes each usable observation once, correctly",
    """The SuperMAG loader returns every station line of the file with its own block's time, indices and
    values and fill values as NaN. The converter writes exactly one line for each observation that is
    complete, in the chosen hemisphere and within the time tolerance of a good boundary, with the input
    values unchanged and the boundary-relative location and components of the boundary nearest its time, the
    number of stations written for that time, and none otherwise.""",
    ["inputs", "histories"],
    """every file of up to three time blocks and three stations per block with index lines, fill values and
    both hemispheres present or absent, against boundary sets with every quality mask and several tolerances""",
    """Tests compare output files for one input; multi-time files, gaps, fills and trailing or leading
    unmatched data are not covered.""",
    ["ocbpy/instruments/supermag.py", C, S], [("supermag2ascii_ocb", "ocbpy/instruments/supermag.py"),
                                             ("load_supermag_ascii_data", "ocbpy/instruments/supermag.py")])

add("P16", "Vorticity conversion writes each usable measurement once, correctly",
    """The vorticity loader returns every block entry with its own block's date and hour and column values.
    The converter writes exactly one line, in order, for each measurement in the chosen hemisphere within
    the time tolerance of a good boundary, with the location relative to, and the vorticity scaled by, the
    boundary nearest its time, together with the saved input columns when requested, and none otherwise.""",
    ["inputs", "histories"],
    """every file of up to three blocks of one to two entries in either hemisphere, against boundary sets with every
    quality mask, several tolerances, boundary classes and scaling choices""",
    """Tests compare output files for one input per boundary type.""",
    ["ocbpy/instruments/vort.py", C], [("vort2ascii_ocb", "ocbpy/instruments/vort.py"),
                                     ("load_vorticity_ascii_data", "ocbpy/instruments/vort.py")])

add("P17", "pysat conversion adds correct, aligned boundary data and metadata",
    """Adding boundary data to a pysat instrument, in tabular or labelled-array form, leaves all existing
    data unchanged and adds for every sample the boundary-relative location, correction and scaled scalar
    and vector values of the nearest good boundary within the tolerance, in that sample's row, and NaN for
    samples that are undefined, in the other hemisphere or unmatched. Each added variable has metadata.""",
    ["inputs", "configurations"],
    """every instrument data set of up to four samples (one- and two-dimensional) with every pattern of
    hemisphere, NaN and time gap, both data formats, all boundary classes, scalar and vector variables""",
    """Tests check a few stored values for one data set per format.""",
    ["ocbpy/instruments/pysat_instruments.py", C, S],
    [("add_ocb_to_data", "ocbpy/instruments/pysat_instruments.py"),
     ("reshape_pad_mask_flatten", "ocbpy/instruments/pysat_instruments.py"),
     ("add_ocb_to_metadata", "ocbpy/instruments/pysat_instruments.py")])

add("P18", "The default boundary file depends only on request and directory content",
    """Choosing a default boundary file returns a file that exists in the package's boundary directory, is for
    the requested hemisphere and boundary type, is from the requested instrument when one is named, and
    covers a time overlapping the request when times are given; among several it follows the documented
    instrument preference, and it returns none when no file qualifies. The choice depends only on the
    request and the set of file names, not on the order in which the directory happens to list them.""",
    ["configurations", "inputs", "fault_sequences"],
    """every subset up to a stated size of a file-name alphabet (all instruments, hemispheres, types, custom
    instruments and unrelated files), every listing order, and every request combination of times,
    hemisphere, instrument and type""",
    """The package ships no boundary files, so most default-file tests cannot run; tests see one directory
    in one order.""",
    ["ocbpy/boundaries/files.py"], [("get_boundary_files", "ocbpy/boundaries/files.py"),
                                  ("get_default_file", "ocbpy/boundaries/files.py")])

add("P19", "DMSP download restores the environment and keeps only wanted files",
    """Fetching DMSP files returns exactly the archive members for the requested satellites and dates (start
    inclusive, end exclusive), all in the requested directory, removes the checksum and, when asked,
    temporary files, and never touches other files. Whatever the download or archive does (success, bad
    checksum, missing link, missing or broken archive, an exception), the process's output streams are what
    they were before the call, and failure is reported as an error rather than as a result.""",
    ["fault_sequences", "inputs", "configurations"],
    """every outcome of the download step from the fault alphabet, crossed with satellite and time selections,
    archive contents and the temporary-file option""",
    """Tests that download need the network and are skipped or run once; no test injects faults.""",
    ["ocbpy/boundaries/dmsp_ssj_files.py"],
    [("fetch_ssj_boundary_files", "ocbpy/boundaries/dmsp_ssj_files.py"),
     ("evaluate_dmsp_boundary_file", "ocbpy/boundaries/dmsp_ssj_files.py"),
     ("fetch_format_ssj_boundary_files", "ocbpy/boundaries/dmsp_ssj_files.py")])

add("P20", "Formatted DMSP boundaries pass through both measured crossings",
    """Formatting DMSP crossing files writes, to the file for its hemisphere and boundary type, one record per
    input pass holding the spacecraft, the mid-time of the two crossings, their magnetic positions, and the
    circle whose diameter joins them, with the pass's quality. Every readable input contributes all its passes
    and unreadable inputs contribute none and do not prevent the others; the written files load as boundaries
    that pass through both crossings.""",
    ["inputs", "configurations"],
    """every set of up to three input files with up to two passes from an alphabet of hemispheres, locations,
    times (over midnight) and qualities, with missing, malformed and commented files in every position""",
    """Tests format one shipped file per case and compare line counts or names.""",
    ["ocbpy/boundaries/dmsp_ssj_files.py", B],
    [("format_ssj_boundary_files", "ocbpy/boundaries/dmsp_ssj_files.py"), ("OCBoundary.load", B)])

add("P21", "The ASCII loader returns every row and column as written",
    """Loading an ASCII table returns, for each name in the header, one value per data row in order, of the
    requested type (real, integer or text) and equal to what the file says, together with one time per row
    equal to the instant written in the named time columns, for any number of rows and columns, header
    lines, separators and supported time formats; the header lines are returned as read.""",
    ["inputs", "configurations"],
    """every table of up to three rows and four columns over the type alphabet, header forms and every
    supported time format and column order""",
    """Tests load three shipped files; row counts of one, column orders and type mixes vary freely in use.""",
    ["ocbpy/instruments/general.py", T], [("load_ascii_data", "ocbpy/instruments/general.py")])

add("P22", "An object's evaluatable representation rebuilds an equal object",
    """Evaluating the representation of a boundary, dual boundary or vector object built from files and
    module-level functions produces an object with the same records, settings and conversion results, and
    producing the representation or printed summary never fails or alters the object, including for objects
    with no, one or filtered records and after any conversions.""",
    ["configurations", "histories"],
    """every class, instrument, hemisphere, reference latitude, time window, correction form, scaling function
    and shape in the alphabet, before and after conversions""",
    """Tests evaluate the representation of a few default objects and compare strings.""",
    [B, S], [("__repr__ and __str__", B), ("VectorData.__repr__ and __str__", S)])

add("P23", "The satellite-track mask selects exactly the points along the track",
    """A location is reported as along the satellite track exactly when it lies between the two lines parallel
    to the line through both crossings displaced by the given offsets, and is not equatorward of the nearer
    crossing by more than the allowed distance; the answer for each location is independent of the other
    locations in the call, and invalid tolerances or hemispheres are rejected.""",
    ["inputs"],
    """every combination of crossing pairs of both slope signs and directions, hemisphere, tolerances and
    location grid points, singly and in arrays""",
    """Tests check one track and a few points.""",
    [C], [("satellite_track", C)])

add("P24", "Boundary corrections are periodic, shape-preserving published formulas",
    """Each boundary correction function returns, for every magnetic local time, the published correction for
    the named instrument and method with poleward corrections negative, is periodic over 24 hours, returns an
    output of the same shape as its input with each value depending only on its own local time, and rejects
    unknown instruments and methods.""",
    ["inputs"],
    """every function, instrument, method and letter case, over a fine local-time grid covering several
    turns, as scalar, list and array""",
    """Tests check one or two local times per function.""",
    ["ocbpy/ocb_correction.py"], [("circular, elliptical, harmonic", "ocbpy/ocb_correction.py")])

add("P25", "Geographic input gives the same result as its magnetic equivalent",
    """Converting a geocentric or geodetic location gives the same boundary-relative result as first converting
    it to magnetic coordinates at the record's time, its own height and the requested tracing method, and reverting
    to geographic coordinates inverts this within the accuracy of the magnetic model, for every mix of scalar
    and array inputs. Vectors given in geographic components or at geographic locations are converted
    with the same location and the angle between the geographic and magnetic poles at the time and height
    of each element.""",
    ["inputs", "configurations"],
    """every combination of coordinate system, height (scalar and per point), tracing method, location, record
    time, shape and boundary class in the alphabets""",
    """Tests use one height and method for a few points.""",
    [B, S, T], [("normal_coord/revert_coord", B), ("update_loc_coords", S),
               ("update_vect_coords_to_mag", S)])

add("P26", "Haversine and inverse haversine are exact, elementwise inverses",
    """The haversine of any angle is the square of the sine of half the angle, and the inverse haversine of any
    value between zero and one is the angle between zero and half a turn with that haversine, so that converting
    there and back returns the magnitude of the angle modulo one turn. Values below zero by no more than rounding
    give zero, other negative and undefined values give NaN without affecting other elements, and the
    output has the shape of the input.""",
    ["inputs"],
    """every value of fine grids of angles and haversines and beside each limit, alone, in every shape and
    in every combination of special elements""",
    """Tests check a few values and one array.""",
    [S], [("hav, archav", S)])

add("P27", "Work on separate objects, arrays and files never interacts",
    """Public operations on separate objects, arrays and files do not influence each other: whatever
    operation runs in the middle of another one (in another thread, or called from a scaling or correction
    function), each returns the same result, writes the same files and leaves its own objects in the same state as
    when it runs alone, including operations that fail.""",
    ["schedules", "histories"],
    """every ordered pair of 34 public operations, the second started at every source line the first
    executes; for pairs of short operations also every line of the second at which the first continues""",
    """Tests run one operation at a time, so state shared between objects (class attributes, module
    level buffers, mutable defaults) stays invisible unless an operation is interrupted at the right line.""",
    [B, C, S, V, T, "ocbpy/instruments/vort.py", "ocbpy/instruments/supermag.py", "ocbpy/instruments/general.py",
     "ocbpy/boundaries/dmsp_ssj_files.py", "ocbpy/boundaries/files.py"],
    [("normal_coord, revert_coord, get_aacgm_boundary_lat, load", B), ("match_data_ocb", C),
     ("VectorData.set_ocb", S), ("adjust_vector", V), ("fix_range", T)])

add("P28", "Unusable files and refused calls leave nothing behind",
    """A file that is missing, empty, a directory, a pipe or over the size limit is not loaded: boundary classes
    hold no records, the ASCII and SuperMAG loaders return no data, the vorticity loader returns nothing and the
    converters raise an error. A boundary, column, SuperMAG, vorticity or crossings file that is cut short at any
    byte gives an error or every complete record before the cut with its own values, and at most one more record
    from the incomplete line. A refused conversion, selection of pairs, listing of good records or coordinate
    conversion neither creates nor changes a file, leaves the boundary object and the state of the process as
    they were, and later calls give the same result as if it had never been attempted.""",
    ["crash_points", "fault_sequences", "histories"],
    """every byte of a file at which it can end, every kind of unusable path for every reader, and every reason
    for refusal with every state of the output file and of the boundary object""",
    """Tests try one missing file, one empty file and one bad argument for each function, and do not look
    at what is left afterwards.""",
    [B, C, "ocbpy/instruments/vort.py", "ocbpy/instruments/supermag.py", "ocbpy/instruments/general.py",
     "ocbpy/boundaries/dmsp_ssj_files.py"],
    [("load, set_good_ind", B), ("retrieve_all_good_indices", C),
     ("test_file, load_ascii_data", "ocbpy/instruments/general.py"),
     ("vort2ascii_ocb, load_vorticity_ascii_data", "ocbpy/instruments/vort.py"),
     ("supermag2ascii_ocb, load_supermag_ascii_data", "ocbpy/instruments/supermag.py"),
     ("format_ssj_boundary_files", "ocbpy/boundaries/dmsp_ssj_files.py")])

add("P29", "Printed summaries report exactly what the object holds",
    """The printed summary of a boundary names its file, instrument and reference latitude, the number of records
    with the first and last time, the first two and last two records with their own values, and every pair of
    correction function and arguments that is in use and no other; that of a dual boundary gives the number and
    times of the pairs, the allowed difference and the summaries of both boundaries; that of a vector gives its
    name, units, indices, each location, each vector and each calculated boundary location and vector with the
    index it belongs to, and the scaling function.""",
    ["configurations", "histories"],
    """every class, instrument, hemisphere, number of records, time window, assignment of corrections, index
    layout and shape in the alphabet, before and after conversions""",
    """Tests look for a few words in the summary of some objects, not for the right numbers beside the right
    index.""",
    [B, S], [("__str__", B), ("VectorData.__str__", S)])

add("P30", "Errors and interruptions at any point are reported and contained",
    """When a file cannot be opened, read, written or closed at any point of a public operation, or the operation is
    interrupted at any point, the error or interruption reaches the caller and is never hidden behind a partial
    result. Input files and the records of the boundary objects stay as they were, an output file holds what it
    held before or the first part of the complete output, no file stays open, the state of the process (output
    streams, floating point handling, folder, warnings) is as before, and the same or any other operation run
    afterwards on objects and files of its own gives its usual result.""",
    ["crash_points", "fault_sequences"],
    """every opening, reading, writing and closing of a file that an operation makes with each kind of error,
    and every source line that an operation executes""",
    """Tests never let a read or write fail, and cannot place an interruption at a chosen line.""",
    [B, C, S, V, T, "ocbpy/instruments/vort.py", "ocbpy/instruments/supermag.py", "ocbpy/instruments/general.py",
     "ocbpy/boundaries/dmsp_ssj_files.py", "ocbpy/boundaries/files.py"],
    [("load, normal_coord, revert_coord", B), ("load_ascii_data", "ocbpy/instruments/general.py"),
     ("vort2ascii_ocb, load_vorticity_ascii_data", "ocbpy/instruments/vort.py"),
     ("supermag2ascii_ocb, load_supermag_ascii_data", "ocbpy/instruments/supermag.py"),
     ("format_ssj_boundary_files", "ocbpy/boundaries/dmsp_ssj_files.py")])

add("P31", "Results do not depend on the settings of the process",
    """Every public operation gives the same results, files and object attributes for the same inputs whatever the
    time zone of the computer, the hash seed, the optimisation flags of the interpreter, the encoding and C locale
    variants, the working directory, the printing, floating point error and logging options, the file mode mask,
    the thread and depth it is called at, and whether the optional packages are installed (except for the function
    that needs the package). Times in files and arguments are universal time throughout the changes of local
    clocks. (Only the order in which a printed summary lists correction functions is free.)""",
    ["configurations", "inputs"],
    """every operation under every setting of the process, alone and combined with any other setting""",
    """Tests run in one interpreter with the settings of the developer or of the service that runs them.""",
    [B, C, S, V, T, "ocbpy/instruments/vort.py", "ocbpy/instruments/supermag.py", "ocbpy/instruments/general.py",
     "ocbpy/boundaries/dmsp_ssj_files.py", "ocbpy/boundaries/files.py"],
    [("convert_time, year_soy_to_datetime", "ocbpy/ocb_time.py"),
     ("load_ascii_data", "ocbpy/instruments/general.py"),
     ("get_boundary_files, get_default_file", "ocbpy/boundaries/files.py"),
     ("load, __repr__, __str__", B)])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
