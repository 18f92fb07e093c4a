"""Writes properties.jsonl from the table below (kept so the list stays easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Antenna-pair and polarization codes are invertible",
  "Packing an antenna pair (each index 0 to 2046) into a baseline number and unpacking it gives the same pair in ascending order, so different pairs never share a number; the combined baseline-and-polarization code likewise returns the pair and the polarization that went in. A pair written to a data set in either order is read back as the same antenna pair, and polarization names and numeric codes correspond one to one.",
  ["inputs"], "all antenna pairs i,j in 0..2046, all polarization codes -8..4",
  "The tests convert a handful of small pairs; the switch between the two packing schemes at 256 antennas and the 32-bit float the file stores the number in are only reached by large indices.",
  ["aipy/miriad.py", "aipy/pol.py", "aipy/_miriad/miriad_wrap.h", "aipy/phs.py"],
  [("ij2bl/bl2ij", "aipy/miriad.py"), ("ijp2blp/blp2ijp", "aipy/pol.py"), ("MKBL/GETI/GETJ", "aipy/_miriad/miriad_wrap.h")])
p("C02", "Visibility records survive a write and read unchanged",
  "A data set written with floating-point storage and reopened yields its records in order, each with the u,v,w, time, antenna pair and complex channel values that were written, bit for bit in single precision (coordinates and time in double precision). Nothing is lost, repeated or shared between records, whatever the values are and however many channels or records there are.",
  ["inputs", "histories"], "every channel value, coordinate and time; sequences of records with varying antenna pairs, times and channel counts",
  "Tests write one or two fixed spectra; byte order, buffer boundaries and change-detection (only changed variables are stored) depend on values and on record history.",
  ["aipy/miriad.py", "aipy/_miriad/miriad_wrap.cpp", "aipy/_miriad/mir/uvio.c", "aipy/_miriad/mir/hio.c", "aipy/_miriad/mir/pack.c"],
  [("raw_write/raw_read", "aipy/_miriad/miriad_wrap.cpp"), ("uvwrite_c/uvread_c/uv_scan", "aipy/_miriad/mir/uvio.c"), ("hio_c buffering", "aipy/_miriad/mir/hio.c")])
p("C03", "Scaled 16-bit storage has a bounded error",
  "A data set written with 16-bit scaled storage returns every channel's real and imaginary part within one part in 32767 of the largest magnitude in that record, and returns flags, coordinates, time and antenna pair unchanged. An all-zero record reads back as zeros.",
  ["inputs"], "every finite single-precision spectrum, including all-zero and sign-mixed ones",
  "The tests check one random spectrum with a loose tolerance; the extremes of the scale computation need particular magnitudes and signs.",
  ["aipy/_miriad/mir/uvio.c", "aipy/_miriad/miriad_wrap.cpp"],
  [("uvwrite_c scaling", "aipy/_miriad/mir/uvio.c"), ("uvread_c rescaling", "aipy/_miriad/mir/uvio.c")])
p("C04", "Data flags are stored exactly, record by record",
  "The mask given with each written record is the mask returned when that record is read, for every combination of flagged channels, whatever the channel counts of earlier records and however the flags straddle the packed storage words. Writing the flags of one stretch of channels never changes the flags of any other channel.",
  ["inputs", "histories"], "all flag patterns, offsets and lengths, sequences of flag writes",
  "Flags are packed 31 to a word with read-modify-write at unaligned ends; tests use one mask at one offset.",
  ["aipy/_miriad/mir/maskio.c", "aipy/_miriad/mir/uvio.c", "aipy/miriad.py"],
  [("mkwrite_c/mkread_c/mkfill", "aipy/_miriad/mir/maskio.c"), ("uvwrite_c flags", "aipy/_miriad/mir/uvio.c")])
p("C05", "Variables read back with the value in force at each record",
  "After reading a record, every variable has the value most recently assigned before that record was written, for string, integer, single, double and complex variables of any length, whether or not the value changed between records. Rewinding and reading again gives the same values.",
  ["inputs", "histories"], "all values per type; sequences of assignments interleaved with records",
  "The tests read variables that are set once; values that change, change back or change length between records depend on the history.",
  ["aipy/_miriad/mir/uvio.c", "aipy/_miriad/miriad_wrap.cpp", "aipy/miriad.py"],
  [("uvputvr_c/uv_override/uv_scan", "aipy/_miriad/mir/uvio.c"), ("rdvr/wrvr", "aipy/_miriad/miriad_wrap.cpp")])
p("C06", "Header items read back as written",
  "A header item written to a data set (text, integer, double or complex, of any length) is returned equal to the written value on reopening, and stored numbers use big-endian byte order so that data sets can be exchanged between machines. Packing and unpacking 16, 32 and 64-bit numbers are exact inverses over their whole range.",
  ["inputs"], "all values of each stored type; item lengths up to the bound; items that straddle buffers",
  "Tests write no header item other than through copying; byte order on extreme values is never examined.",
  ["aipy/_miriad/mir/pack.c", "aipy/_miriad/mir/headio.c", "aipy/_miriad/mir/hio.c", "aipy/_miriad/miriad_wrap.cpp", "aipy/miriad.py"],
  [("pack16_c..unpackr_c", "aipy/_miriad/mir/pack.c"), ("hread/hwrite", "aipy/_miriad/miriad_wrap.cpp"), ("_rdhd/_wrhd", "aipy/miriad.py")])
p("C07", "Selections return exactly the matching records",
  "With selections applied, reading returns precisely the records that satisfy them, in file order and unaltered: an antenna or polarization selection keeps the records of those antennas or polarizations, exclusion removes them, automatic selection separates auto from cross correlations, and decimation by N with offset k keeps the integrations whose index is k modulo N. Ranges of time, LST, position, pointing offset, baseline length and record number keep the records whose value lies within them (a range excluded, those outside; several ranges of one kind, the last that matches deciding), selections of different kinds combine, and clauses joined by 'or' return the records that satisfy any of them. Clearing the selection and rewinding returns every record, and a refused selection changes nothing.",
  ["inputs", "histories"], "all antenna pairs, polarizations, times and decimation parameters; short record sequences",
  "The tests hold no selection at all.",
  ["aipy/_miriad/mir/uvio.c", "aipy/_miriad/miriad_wrap.cpp", "aipy/miriad.py"],
  [("uvselect_c/uvread_select", "aipy/_miriad/mir/uvio.c"), ("decimation in raw_read", "aipy/_miriad/miriad_wrap.cpp")])
p("C08", "Copying a data set preserves everything not overridden",
  "Initialising a new data set from another copies every header item and variable with its value and type except those excluded, and overridden ones take the override value in every record. Piping all records through an identity function reproduces every record's data, mask, coordinates and variables, and a filter that returns nothing for a record omits exactly that record.",
  ["inputs", "histories"], "all header items, variables, override and exclude sets; record streams and filter outcomes",
  "No stable test copies a data set.",
  ["aipy/miriad.py"],
  [("UV.init_from_uv", "aipy/miriad.py"), ("UV.pipe", "aipy/miriad.py"), ("UV.read/UV.write", "aipy/miriad.py")])
p("C09", "A refused operation leaves every data set usable",
  "An operation on a data set that cannot be done raises an exception and otherwise has no effect on what is stored: every open data set, including the one it was tried on, goes on storing and returning records, variables and header items as if it had not been attempted, however many errors came before. A data set opened for reading refuses writes and one being written refuses reads; a data set that could not be opened takes up nothing.",
  ["inputs", "histories"], "every kind of refused operation, at every point of the life of a data set, once or repeatedly, with other data sets open; all record contents",
  "No test makes an error occur; errors act on the bookkeeping shared by all open data sets, and what they destroy only shows in other data sets, later.",
  ["aipy/_miriad/mir/bug.c", "aipy/_miriad/mir/uvio.c", "aipy/_miriad/mir/hio.c", "aipy/_miriad/mir/dio.c", "aipy/_miriad/miriad_wrap.cpp"],
  [("bug_c/MiriadError", "aipy/_miriad/mir/bug.c"), ("uvopen_c/uvclose_c", "aipy/_miriad/mir/uvio.c"), ("hopen_c/hclose_c", "aipy/_miriad/mir/hio.c"), ("UVObject_init/dealloc", "aipy/_miriad/miriad_wrap.cpp")])
p("C10", "Gridding conserves each datum on the periodic grid",
  "Gridding a datum at any position adds datum times a positive weight to each cell within the footprint of that position and changes no other cell; the weight is the normalised Gaussian of the distance to the cell, and positions beyond an edge wrap around periodically, independently on each axis. Contributions of several data add up, and the result is the same for square and non-square grids.",
  ["inputs"], "all positions (including negative and beyond the grid), data values, grid shapes and footprints",
  "The tests grid on square grids at a few positions.",
  ["aipy/_dsp/grid/grid.c", "aipy/_dsp/dsp.c"],
  [("grid1D_c/grid2D_c", "aipy/_dsp/grid/grid.c")])
p("C11", "Degridding reads a weighted mean of the same cells",
  "Degridding at a position returns the weighted mean of the grid cells within the footprint, using the same periodic wrapping and Gaussian weights as gridding, so a constant grid degrids to that constant anywhere and every result lies between the smallest and largest cell it reads. The grid itself is not modified.",
  ["inputs"], "all positions, grid values, grid shapes and footprints",
  "The tests degrid only near the middle of square grids.",
  ["aipy/_dsp/grid/grid.c", "aipy/_dsp/dsp.c"],
  [("degrid2D_c", "aipy/_dsp/grid/grid.c")])
p("C12", "Indexed accumulation adds every datum exactly once",
  "Accumulating data into an array at given indices adds each datum to its element, including when indices repeat, when they are negative (counted from the end) and for every supported numeric type, shape and memory layout. Any index outside the array is refused with an error and never touches memory outside the array, and arrays of the wrong rank, length or type are refused.",
  ["inputs"], "all index values, data values, shapes and strides of the arrays",
  "No stable test calls it directly; wrong memory accesses show only for particular indices.",
  ["aipy/utils/utils.cpp"],
  [("AddStuff::addloop/caddloop", "aipy/utils/utils.cpp"), ("add2array argument checks", "aipy/utils/utils.cpp")])
p("C13", "CLEAN's model and residual always account for the image",
  "For every image, kernel, starting model and option, the returned residual equals the image minus the periodic convolution of the returned model with the kernel, in one and two dimensions and for real and complex data. This holds however the loop ends: converged, iteration limit or divergence.",
  ["inputs"], "all pixel values, kernels with non-zero peak, gains, iteration counts up to the bound",
  "Tests check the shape of the result on random images with loose tolerances; the stop paths depend on values.",
  ["aipy/_deconv/deconv.cpp", "aipy/deconv.py"],
  [("Clean::clean_1d_r/clean_1d_c/clean_2d_r/clean_2d_c", "aipy/_deconv/deconv.cpp"), ("clean", "aipy/deconv.py")])
p("C14", "CLEAN obeys its options and reports how it ended",
  "CLEAN changes the model only at pixels inside the requested area, removing in each step the gain-scaled fraction of the strongest residual found there; with positive-definite mode it only picks positive residuals. It never exceeds the iteration limit, undoes a diverging step when asked to stop on divergence, and the reported reason, iteration count, success flag and score match what happened.",
  ["inputs"], "all images, areas, gains, tolerances and option combinations within the size and iteration bounds",
  "Area and positive-definite modes and the exact reporting are not tested.",
  ["aipy/_deconv/deconv.cpp", "aipy/deconv.py"],
  [("peak search and area test", "aipy/_deconv/deconv.cpp"), ("info dictionary", "aipy/deconv.py")])
p("C15", "Bounded deconvolvers respect limits and report a true residual",
  "Least-squares, maximum-entropy and annealing deconvolution return a model whose every pixel a step has touched lies within the requested lower and upper limits, together with the residual that model leaves: the image minus its convolution with the kernel. Annealing never returns a model that fits worse than the starting one, and inputs are not modified.",
  ["inputs"], "all images, kernels, limits and perturbations within the size and iteration bounds",
  "The tests run one image without limits and only check that the call returns.",
  ["aipy/deconv.py"], [("lsq", "aipy/deconv.py"), ("maxent", "aipy/deconv.py"), ("anneal", "aipy/deconv.py")])
p("C16", "Rotation matrices are rotations and invert each other",
  "The equatorial-to-topocentric matrix for any hour angle and declination is orthonormal with determinant one and its inverse is the topocentric-to-equatorial matrix; it maps the direction at that hour angle and declination to straight up. Rotation by any angle about any unit axis is orthonormal, leaves the axis fixed, follows the right-hand rule, and rotations about one axis compose by adding angles; array arguments give the stack of the scalar results.",
  ["inputs"], "all angles and unit axes, scalar and array arguments",
  "Tests check a few multiples of 90 degrees.",
  ["aipy/coord.py"], [("rot_m", "aipy/coord.py"), ("eq2top_m/top2eq_m", "aipy/coord.py")])
p("C17", "Angle and vector conversions are mutually inverse",
  "Converting any direction between unit vectors and angles (polar, equatorial, latitude-longitude, azimuth-altitude) and back returns the same direction, and every vector produced has unit length. Right ascension and azimuth are returned in 0 to 2 pi, declination and altitude in -pi/2 to pi/2, azimuth increases from north through east, and masked entries stay masked.",
  ["inputs"], "all directions and angles, including poles and wrap-around, scalar, array and masked arguments",
  "Tests check axis-aligned directions.",
  ["aipy/coord.py"], [("xyz2thphi/thphi2xyz", "aipy/coord.py"), ("eq2radec/radec2eq", "aipy/coord.py"), ("top2azalt/azalt2top", "aipy/coord.py")])
p("C18", "Baselines are antisymmetric, additive and length-preserving",
  "The baseline from antenna i to j is the opposite of that from j to i, baselines around a triangle add to zero, and every projection (current equatorial, zenith, or towards a source) preserves its length and the w component is the projection along the source direction. Coordinates in wavelengths are the projected baseline times each active frequency, a w-only request returns the same w, and a source below the horizon is refused.",
  ["inputs"], "all antenna positions, sidereal times, source directions, frequencies; one or many sources",
  "Tests use a two-antenna array with fixed positions and one time.",
  ["aipy/phs.py", "aipy/coord.py"], [("get_baseline", "aipy/phs.py"), ("gen_uvw", "aipy/phs.py"), ("RadioBody.compute", "aipy/phs.py")])
p("C19", "Phasing to a source is a unit phase and can be undone",
  "Phasing data to a source and unphasing it returns the original data; the phase factor has unit magnitude, is conjugated when the antennas are swapped, includes each antenna's phase polynomial evaluated at each active frequency and the ionospheric offset scaling as frequency to the minus two. Source-size attenuation is one for a point source or zero baseline and never exceeds one.",
  ["inputs"], "all data, positions, phase polynomials, offsets, ionospheric offsets, frequencies",
  "Tests use zero offsets on one baseline.",
  ["aipy/phs.py"], [("gen_phs", "aipy/phs.py"), ("phs2src/unphs2src", "aipy/phs.py"), ("refract/resolve_src", "aipy/phs.py"), ("get_phs_offset", "aipy/phs.py")])
p("C20", "Time settings convert exactly and refresh dependent state",
  "Julian dates and the internal calendar dates differ by a fixed offset and convert back and forth without change. Setting an array's time sets its date and epoch, makes the same time readable as a Julian date, and recomputes everything that depends on sidereal time so that no projection uses the previous time; simulation after a time change requires new source positions.",
  ["inputs", "histories"], "all dates; sequences of time settings and computations",
  "Tests set one date.",
  ["aipy/phs.py", "aipy/amp.py"], [("juldate2ephem/ephem2juldate", "aipy/phs.py"), ("ArrayLocation.set_jultime", "aipy/phs.py"), ("AntennaArray.set_jultime", "aipy/amp.py")])
p("C21", "Catalogues return the requested sources in the requested order",
  "Adding sources to a catalogue (one, several or a list) makes each retrievable under its name, later additions replacing earlier ones of the same name. Asking for all or for named sources returns them, their coordinates, attributes or fluxes in that order; a flux cutoff selects exactly the sources brighter than the limit at the given frequency, unknown names are skipped and ready-made source objects are kept.",
  ["inputs", "histories"], "all name lists, sequences of additions, cutoffs and source fluxes",
  "Tests use one three-source catalogue.",
  ["aipy/phs.py", "aipy/amp.py", "aipy/src.py", "aipy/_src/misc.py"],
  [("SrcCatalog.add_srcs/get_srcs/get/get_crds", "aipy/phs.py"), ("get_catalog", "aipy/src.py")])
p("C22", "Channel selection restricts every frequency-dependent result",
  "After selecting channels, every frequency-dependent quantity (active frequencies, phase offsets, gains, beam responses, uvw, phases) equals the full-band result restricted to those channels in that order, and selecting all channels restores the full band. Nothing computed for a previous selection survives.",
  ["inputs", "histories"], "all frequency tables, channel lists (any order, repeats) and sequences of selections",
  "Tests select one channel list once.",
  ["aipy/phs.py", "aipy/amp.py", "aipy/pol.py"], [("Beam.select_chans", "aipy/phs.py"), ("Antenna.update", "aipy/amp.py"), ("BeamPolynomial.update", "aipy/amp.py")])
p("C23", "Gains and source spectra follow their models",
  "The passband of a baseline is the second antenna's gain times the conjugate of the first's, so swapping antennas conjugates it and an autocorrelation is real and non-negative; each gain is its amplitude times the complex passband polynomial at each active frequency. A source's flux at each frequency is its reference flux times the frequency ratio to the power of its spectral index, equal to the reference flux at the reference frequency.",
  ["inputs"], "all polynomial coefficients, amplitudes, frequencies, fluxes and indices",
  "Tests check one constant passband.",
  ["aipy/amp.py"], [("Antenna._update_gain/passband", "aipy/amp.py"), ("RadioBody.update_jys", "aipy/amp.py")])
p("C24", "Beam responses follow the model, pointing and polarization",
  "Each beam model returns one response per active frequency and direction: unity for the flat beam, the Gaussian of the direction angles for the Gaussian beam, the azimuth-and-frequency dependent Gaussian for the polynomial beam, and the frequency polynomial of interpolated sky maps for the spherical-harmonic beam. An antenna evaluates its beam in coordinates rotated so that its pointing direction is the beam centre, with twist applied and the second polarization rotated by a quarter turn.",
  ["inputs"], "all directions, widths, polynomial coefficients, pointings and twists",
  "Tests check a few directions at the default pointing.",
  ["aipy/amp.py", "aipy/coord.py"], [("Beam*.response", "aipy/amp.py"), ("Antenna.set_pointing/bm_response", "aipy/amp.py")])
p("C25", "A simulated visibility is the sum over sources above the horizon",
  "The simulated visibility of a baseline equals the sum, over exactly the sources above the horizon, of passband times beam responses times flux times the source's own phase, ionospheric and size terms; sources below the horizon contribute nothing and an empty sky gives zeros. Swapping the antennas (and polarizations) conjugates the result, and the order of the sources does not matter.",
  ["inputs"], "all source positions, fluxes, shapes and ionospheric offsets, antenna pairs and polarizations within the size bound",
  "The stable tests do not simulate visibilities.",
  ["aipy/amp.py"], [("sim_cache", "aipy/amp.py"), ("sim", "aipy/amp.py"), ("bm_response cache", "aipy/amp.py")])
p("C26", "Fit parameters read out and set back without change",
  "Setting any subset of an object's fit parameters makes exactly those parameters read back with the new values, leaves all others (and other antennas and sources) unchanged, and refreshes everything derived from them; setting back what was read changes nothing. Asking for named parameters returns just those, and a wildcard returns all.",
  ["inputs", "histories"], "all parameter subsets and values, over sources, beams, antennas (also polarized) and arrays",
  "The stable tests do not exercise parameter setting.",
  ["aipy/fit.py", "aipy/pol.py"], [("get_params/set_params", "aipy/fit.py"), ("Antenna.get_params/set_params", "aipy/pol.py")])
p("C27", "Parameter flattening and rebuilding are inverse",
  "Flattening a nested parameter dictionary to a list and rebuilding it from that list returns an equal dictionary; every scalar occupies one list position and every sequence consecutive positions, with no position shared or skipped. Rebuilding from a changed list changes exactly the corresponding parameters.",
  ["inputs"], "all nested dictionaries up to the depth and size bound with scalar and sequence leaves",
  "No stable test covers it.",
  ["aipy/fit.py"], [("flatten_prms/reconstruct_prms", "aipy/fit.py")])
p("C28", "Channel, source and parameter strings mean what they say",
  "A channel string yields exactly the listed channels and inclusive (optionally strided) ranges in order, and 'all' every channel. A parameter string assigns each named object and parameter its start value and sigma as written (or none), including grouped forms; a source string yields names, position sources, or a flux cutoff as written.",
  ["inputs"], "all channel numbers, ranges and strides; parameter strings over the grammar within the size bound",
  "Tests parse a dozen fixed strings.",
  ["aipy/scripting.py"], [("parse_chans", "aipy/scripting.py"), ("parse_prms", "aipy/scripting.py"), ("parse_srcs", "aipy/scripting.py")])
p("C29", "Antenna strings select the baselines they describe",
  "An antenna string yields exactly the baselines it describes, each marked included or excluded and with the polarization it names: single antennas mean every baseline with that antenna, pairs and bracketed groups the cross product, a minus sign excludes, and 'all', 'auto' and 'cross' their usual sets. Applying it to a data set issues the matching antenna and polarization selections, with the default polarization where none is named.",
  ["inputs"], "all antenna numbers, signs and polarization suffixes over the grammar within the size bound",
  "Tests parse a dozen fixed strings with small antenna numbers and never apply them to a data set.",
  ["aipy/scripting.py", "aipy/miriad.py"], [("parse_ants", "aipy/scripting.py"), ("uv_selector", "aipy/scripting.py")])
p("C30", "Image coordinates and recentring are consistent",
  "Recentring an image moves the element at the given position to the origin by a periodic shift that loses and duplicates nothing and is undone by the opposite shift, masks included. The uv coordinates of the grid and the (l,m) coordinates of the image match the ordering of the gridded data and its Fourier transform, and pixels beyond the unit circle are masked.",
  ["inputs"], "all shifts (negative and beyond the size), image shapes, sizes and resolutions",
  "No stable test covers it.",
  ["aipy/img.py", "aipy/deconv.py"], [("recenter", "aipy/img.py"), ("Img.get_uv/get_LM/get_top", "aipy/img.py")])
p("C31", "Gridded images account for all data and weights",
  "Putting data on the uv plane grids every visibility at its own coordinates into the data plane and its weights into the matching weight planes, default weights being one for the first plane and zero for the others; not applying returns the same planes without changing the image. Appending the conjugate data doubles the data with opposite coordinates, conjugated values and equal weights, and the image of such data is real-valued.",
  ["inputs"], "all coordinates, data, weights and plane counts within the size bound",
  "No stable test covers it.",
  ["aipy/img.py"], [("Img.put/get", "aipy/img.py"), ("Img.append_hermitian", "aipy/img.py")])
p("C32", "W-projection handles every datum exactly once",
  "W-projection sorts data by w and grids every datum exactly once in a group whose w values lie within one resolution step, carrying its weights along; reading back returns one value per requested coordinate in the requested order.",
  ["inputs"], "all w values (any sign, repeated), data and weights within the size bound",
  "No stable test covers it.",
  ["aipy/img.py"], [("ImgW.put/get", "aipy/img.py")])
p("C33", "Sky maps return and accumulate what was assigned",
  "Assigning a value at a pixel or direction and reading it back returns that value; assigning several values to the same pixel in one call stores their sum, pixels not addressed keep their values, and reading with interpolation returns the interpolation-weighted mean. The map size determines the resolution and sizes that are no valid resolution are refused.",
  ["inputs", "histories"], "all pixel indices, directions, values and repeated indices",
  "Tests assign a few pixels.",
  ["aipy/healpix.py", "aipy/utils/utils.cpp"], [("HealpixMap.__setitem__/__getitem__", "aipy/healpix.py"), ("set_map", "aipy/healpix.py")])
p("C34", "Reordering and regridding a sky map keeps the sky",
  "Changing the pixel ordering keeps the value in every direction and changing back restores the map. Initialising a map from another of the same resolution gives the same value in every direction whichever orderings they use, keeps the receiving map's ordering and leaves the source map unchanged.",
  ["inputs"], "all map contents, orderings and resolutions within the bound",
  "Tests never change the scheme of a map that holds data.",
  ["aipy/healpix.py"], [("change_scheme", "aipy/healpix.py"), ("from_hpm", "aipy/healpix.py"), ("nest_ring_conv", "aipy/healpix.py")])
p("C35", "Weighted sky maps average what was added",
  "After any sequence of additions, reading a direction gives the weighted mean of the fluxes (and spectral indices) added there, zero where no weight was added, while the raw access returns the accumulated weight and weighted flux; putting replaces instead of accumulating. Resetting weights keeps every mean and sets positive weights to the given value.",
  ["inputs", "histories"], "all fluxes, weights, indices and sequences of add, put and reset",
  "No stable test covers it.",
  ["aipy/map.py", "aipy/healpix.py"], [("Map.add/put/get/__getitem__/reset_wgt", "aipy/map.py")])
p("C36", "Facet centres are a reordering of the sphere packing",
  "The sphere packing gives N unit vectors in order from south to north, equally spaced in height, and the facet centres are exactly those points, each once, in another order. Bit-reversed ordering lists each of 0 to N-1 exactly once for any N.",
  ["inputs"], "all N up to the bound, all values of the shuffling randomness",
  "No stable test covers it.",
  ["aipy/map.py"], [("pack_sphere/facet_centers", "aipy/map.py"), ("_bit_reverse_order/_local_shuffle", "aipy/map.py")])
p("C37", "Spherical-harmonic coefficients keep their places",
  "Each valid (l,m) names its own coefficient: setting one changes only it, reading it returns what was set, the index list has one entry per coefficient in the order the data are returned, and setting all data then reading gives them back. Sizes that do not match are refused.",
  ["inputs", "histories"], "all l,m within the order bound and all coefficient values",
  "Tests set a few coefficients.",
  ["aipy/healpix.py"], [("Alm.__getitem__/__setitem__", "aipy/healpix.py"), ("Alm.lm_indices/get_data/set_data", "aipy/healpix.py")])
p("C38", "Interpolation keeps the samples and windows keep their shape",
  "Oversampling a sequence by an integer factor returns factor values per input sample, each the weighted mean under the chosen filter of the neighbouring samples (the sequence being continued at both ends by its best-fitting parabola), so a constant sequence is returned unchanged and an interpolating filter reproduces the samples at their positions. Taper windows of length L have L values, and the cosine-family windows are symmetric, bounded by one and follow their defining formula.",
  ["inputs"], "all sample values, factors and orders within the bound; window lengths within the bound",
  "Tests check one window.",
  ["aipy/interp.py", "aipy/dsp.py"], [("interpolate/subsample/polyextend", "aipy/interp.py"), ("WINDOW_FUNC/gen_window", "aipy/dsp.py")])
p("C40", "Polarized antennas keep feeds separate",
  "Each feed of a dual-polarization antenna has its own phase polynomial, passband and amplitude, and a baseline in a linear polarization uses exactly the first letter's feed of the first antenna and the second letter's feed of the second. Setting a parameter of one feed changes that feed only, and every parameter read out can be set back.",
  ["inputs"], "all feed parameters, linear polarizations and frequencies",
  "No stable test covers polarized antennas.",
  ["aipy/pol.py"], [("Antenna._update_phsoff/_update_gain/passband", "aipy/pol.py"), ("AntennaArray.get_phs_offset/passband", "aipy/pol.py"), ("Antenna.get_params/set_params", "aipy/pol.py")])
p("C41", "FITS images keep data and header values",
  "An image written to a FITS file and read back has the same pixel values and shape (axes of length one dropped), and the coordinate centre, pixel size (right ascension always stored as decreasing with pixel number), epoch and axis names that were given. A sky map, with its weights and indices, written and read back has the same values, resolution and pixel ordering.",
  ["inputs"], "all image contents, shapes and header values",
  "No stable test covers it.",
  ["aipy/img.py", "aipy/healpix.py", "aipy/map.py"], [("to_fits/from_fits", "aipy/img.py")])

p("C42", "Calibration modules get the array and catalogue they describe",
  "Loading an array from a calibration module hands it exactly one frequency per channel, the start frequency plus the channel number times the channel width (or the frequencies given), and returns the array it builds. Asking for a catalogue uses the calibration module's own catalogue function when it has one and the standard catalogue otherwise, passing on the requested sources, cutoff and catalogues.",
  ["inputs"], "every channel width, start frequency and number of channels; calibration modules with and without a catalogue function",
  "No test loads a calibration module.",
  ["aipy/cal.py"], [("get_freqs/get_aa/get_catalog", "aipy/cal.py")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
