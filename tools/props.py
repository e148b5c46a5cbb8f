"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "py_gnome/gnome/"
L = "py_gnome/lib_gnome/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=quant), why_tests_cant=why,
                  anchors=dict(files=[f if f.startswith("py_gnome") else G + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               hook_needed=None),
                  _t=technique, _n=note))


UNT = "None of the modules involved is exercised by the tests that run here (they need the gridded package), and "

prop("P01", "Oil mass is conserved through a run",
     "At every output step of every run, and separately for the forecast and the uncertainty set, the oil the model says was released equals what it accounts for: mass still floating, beached, off the map, plus everything reported as evaporated, dispersed, settled, skimmed, boomed, burned, chemically dispersed or recorded as beached, whether by the simple cleanup options or the response systems (ROC). "
     "The floating, beached and off-map figures agree with the masses of the elements themselves, and the component masses of each element add up to its mass. No step creates or loses oil, whatever combination of releases, weathering, cleanup, land and map edges acts on it.",
     "inputs histories configurations",
     "every combination of spills, oils, environment, weatherers, cleanup operations, map and step length, at every step of the run",
     UNT + "a balance must close at every step of every combination of processes; unit tests look at one weatherer on one oil.",
     ["model.py", "weatherers/core.py", "weatherers/cleanup.py", "weatherers/roc.py", "weatherers/evaporation.py", "weatherers/natural_dispersion.py", "weatherers/dissolution.py", "weatherers/manual_beaching.py", "spills/gnome_oil.py", "spill_container.py", "maps/map.py"],
     [("mass balance of the spill container", "spill_container.py mass_balance"), ("Weatherer._exp_decay and the per-weatherer bookkeeping", "weatherers/*.py weather_elements"), ("removal of off-map and depleted elements", "maps/map.py, model.py step_is_done")],
     "online conservation monitor over generated model runs", "Every step of several hundred generated runs; conservation judged to round-off.",
     ["model.step() results, model.spills mass_balance and data arrays after each step"])

prop("P02", "Releases put out the right elements, mass and times",
     "For every release the number of elements out at any time is the number its schedule promises for that time, it never goes down, it reaches the full count and the full spill amount exactly when the release ends and nothing comes out before it starts. "
     "How the run is cut into steps changes the number out at a time by at most one element, every element carries its share of the amount, its own unique number and the spill it came from, and all per-element data always describe the same set of elements. Forecast and uncertainty sets release in step.",
     "inputs configurations histories",
     "every release type, element count or per-step count, start, end, step length, amount and unit, several spills at once, forward runs",
     UNT + "release counts must be right for every alignment of release interval and time step.",
     ["spills/release.py", "spills/spill.py", "spill_container.py", "spills/gnome_oil.py", "utilities/convert.py"],
     [("release time series", "spills/release.py generate_release_timeseries, num_elements_after_time"), ("element arrays grow together", "spill_container.py release_elements / _append_data_arrays")],
     "reference-schedule monitor on the element arrays of generated runs", "Each release compared with an independent schedule after every half step.",
     ["element arrays after every model step"])

prop("P03", "Released elements appear where the spill says",
     "Elements of a point release start exactly at the given position, those of a line release on the straight segment between its ends (spread over all of it), those of a polygon release inside one of the polygons, those of a grid release at the grid nodes, with the requested depth. "
     "Elements released over several steps are placed along the line or interval in proportion to time, and a release that moves in time puts each element where the source was when it came out. Depths, masses and other initial values follow the initialisers given.",
     "inputs configurations",
     "every release geometry, count, depth, and step length",
     UNT + "positions are judged for every random draw, not for one seed.",
     ["spills/release.py", "spills/initializers.py", "utilities/geometry/polygons.py"],
     [("position initialisation", "spills/release.py initialize_LE_positions / initialize_elements"), ("random points in polygons", "spills/release.py PolygonRelease")],
     "containment monitor on newly released elements", "Geometric containment with independent predicates.",
     ["positions of newly released elements before they move"])

prop("P04", "No element passes through or rests inside land",
     "Whatever displacement an element is given in a step, if the straight path between its old and new position touches a land cell of the map it is stopped there: it becomes 'on land', it is left at a place on its path at the shore, and the remembered last water position is a water cell next to it on the path. "
     "If the path touches no land the element keeps its destination and stays in water. No element in water is ever located in a land cell after a step.",
     "inputs histories",
     "every map raster, every start and end position (including steps longer than islands, starts next to the shore, and paths leaving the map)",
     "Existing tests check a handful of paths on one raster; a barrier must hold for every path on every raster.",
     ["maps/map.py", "cy_gnome/cy_land_check.pyx", "utilities/map_canvas.py"],
     [("raster traversal", "cy_gnome/cy_land_check.pyx find_first_pixel / check_land_layers"), ("beaching of elements", "maps/map.py RasterMap.beach_elements")],
     "path oracle (independent cell traversal) on beached and unbeached elements", "Independent traversal of the raster judges each element's path.",
     ["element arrays before and after the map's beaching step"])

prop("P05", "Status codes follow the legal life cycle",
     "An element that is on land stays exactly where it is until it is refloated, refloating puts it back at its last water position, happens with the probability given by the refloat half-life (never for a negative one, always for zero) and only to elements the map says can refloat. "
     "An element that leaves the map is taken out and its mass counted as off the map; an element is never both moved and on land, and no status code outside the documented set ever appears.",
     "histories inputs configurations",
     "every sequence of steps on every map with land, every half-life, tide-flat state and map edge",
     UNT + "the life cycle is a property of whole histories and of random draws.",
     ["maps/map.py", "maps/tideflat_map.py", "spill_container.py", "model.py"],
     [("refloat", "maps/map.py refloat_elements"), ("resurface / off-map", "maps/map.py _set_off_map_status, model.py")],
     "status transition monitor over step histories plus statistical bound on refloat rate", "Transitions judged per element and step; rates by a 1e-9 binomial bound.",
     ["status codes and positions around each step"])

prop("P06", "A run repeated from the start gives the same result",
     "Rewinding a model and running it again reproduces every element array and every accounted quantity of the first run bit for bit, and so does building the same model again in a fresh process-independent way. "
     "Rewinding in the middle of a run, changing and restoring a setting, or saving output along the way makes no difference. Two models without random draws run alternately do not disturb each other.",
     "histories configurations",
     "every model set-up, every number of steps before the rewind, with and without uncertainty",
     UNT + "state left behind by an earlier run only shows up on a second run of the same objects.",
     ["model.py", "spills/release.py", "spill_container.py", "movers/movers.py", "weatherers/core.py", "utilities/rand.py", "utilities/cache.py"],
     [("rewind of every component", "model.py rewind / setup_model_run"), ("seeding", "utilities/rand.py")],
     "trace comparison of repeated runs", "Bitwise comparison of recorded traces.",
     ["all element arrays and mass balance after every step"])

prop("P07", "Uncertainty never changes the forecast",
     "Switching the uncertainty simulation on leaves release schedule, element numbers and deterministic movement of the forecast set unchanged; both sets release the same elements in every step and neither set's arrays are aliased to the other's. "
     "Forecast elements are moved by the mean field alone; uncertainty elements differ only within the bounds set by the uncertainty parameters, and start only after the configured uncertainty start time.",
     "histories configurations",
     "every combination of movers with uncertainty parameters, step lengths and start delays",
     UNT + "needs paired runs of the same random set-up.",
     ["model.py", "spill_container.py", "movers/movers.py", "movers/c_wind_movers.py", "movers/py_wind_movers.py", "movers/c_current_movers.py", "movers/py_current_movers.py", "movers/random_movers.py"],
     [("SpillContainerPair", "spill_container.py"), ("uncertain branches of movers", L + "*Mover_c.cpp")],
     "paired-run comparison and bound monitors", "Forecast traces with and without uncertainty compared exactly where deterministic.",
     ["element arrays of both sets after every step"])

prop("P08", "The model clock and step sequence are exact",
     "A run makes exactly one step more than the whole number of time steps in its duration, step k happens at start time plus k time steps, runs forward or backward as asked, and then stops. "
     "Elements' ages equal the time since each was released to within half a step, every mover, weatherer and output sees each step exactly once in the documented order with the right time, and rewinding, changing start time or step size, or shortening the duration restarts from step zero.",
     "histories configurations",
     "every start, duration, step length, sequence of step, rewind and setter calls",
     UNT + "it is a statement about all histories of stepping and reconfiguration.",
     ["model.py", "utilities/inf_datetime.py", "utilities/time_utils.py"],
     [("step / rewind / setters", "model.py"), ("full_run and iterator", "model.py")],
     "trace-specification monitor with probe movers, weatherers and outputters", "Recorded call traces checked against the step protocol.",
     ["calls received by probe objects put into the model"])

prop("P09", "Movement is the sum of the active movers' moves",
     "In one step an element in water moves by the sum of what each mover would do alone from the same starting point, independent of the order in which the movers are listed; movers that are switched off or whose active interval does not contain the middle of the step contribute nothing. "
     "Elements that are on land, off the map or not in water are not moved by any mover. A constant velocity moves an element by velocity times step on the sphere, at any latitude, and a backward run is the mirror of a forward one.",
     "inputs configurations histories",
     "every set and order of movers, active range, step length and sign, element position and status",
     UNT + "the sum must be right for all subsets, orders and times.",
     ["model.py", "movers/movers.py", "movers/simple_mover.py", "movers/py_current_movers.py", "movers/c_wind_movers.py", "utilities/projections.py"],
     [("move_elements", "model.py"), ("active range", "movers/movers.py Process.prepare_for_model_step"), ("delta to lon/lat", "movers/*.py, utilities/projections.py FlatEarthProjection")],
     "superposition monitor on single-step displacements", "Displacements of the combined step compared with the movers' individual ones.",
     ["positions before and after a step; each mover's get_move"])

prop("P10", "Wind moves floating elements by the windage rule",
     "A floating element is displaced downwind by its own windage fraction times the wind speed times the step, below-surface elements are not displaced by wind, and windages stay inside the range given for the spill, widened or narrowed about its middle by the square root of persistence over step so that the spread is independent of the step length (a persistence above 900 s or below zero keeps each element's windage fixed). "
     "Wind given 'from' a direction pushes the other way; the speed unit and coordinate convention of the input never change the result. A wind read from a grid file pushes each element by the wind at its own place and time, interpolated as the file says.",
     "inputs configurations",
     "every wind record, grid file, windage range and persistence, step length, element depth and status",
     UNT + "windage is random per element and step; its range and mean must hold for all draws.",
     ["movers/c_wind_movers.py", "movers/py_wind_movers.py", "spills/initializers.py", "utilities/rand.py", "environment/wind.py", L + "WindMover_c.cpp", L + "GridWindMover_c.cpp", L + "TimeGridWind_c.cpp"],
     [("random_with_persistance", "utilities/rand.py"), ("WindMover get_move", L + "WindMover_c.cpp get_move")],
     "drift monitor comparing displacement with windage times wind", "Each displacement judged against the element's own windage.",
     ["mover displacement and element windages each step"])

prop("P11", "Point time series return the right value at any time",
     "A time-varying wind, tide or other record returns exactly its values at its own times, linear interpolation (by vector component) in between, its single value at all times when it has only one, and outside its range either the end value when extrapolation is allowed or an error when it is not. "
     "Values do not depend on the unit or coordinate convention in which the record was entered or asked for beyond the plain conversion. Reading a record back gives what was put in.",
     "inputs configurations",
     "every record length, spacing, unit, convention and query time including the exact ends",
     "Tests try a few records and times; interpolation has edges at every record and unit.",
     ["environment/wind.py", "environment/timeseries_objects_base.py", "environment/gridded_objects_base.py", "utilities/timeseries.py", "environment/tide.py", "environment/running_average.py", "cy_gnome/cy_ossm_time.pyx", "cy_gnome/cy_shio_time.pyx", L + "OSSMTimeValue_c.cpp"],
     [("OSSM time interpolation", L + "OSSMTimeValue_c.cpp"), ("TimeseriesData.at", "environment/timeseries_objects_base.py"), ("Timeseries", "utilities/timeseries.py")],
     "independent interpolation oracle on recorded queries", "Every query compared with an independent vector interpolation.",
     ["values returned by queries"])

prop("P12", "Currents carry elements exactly as the field says",
     "Elements in a current are displaced by the interpolated velocity at their place and time times the step, to the order of the chosen integration method; a uniform field gives the same displacement in every method and on every kind of grid. "
     "Outside the grid nothing moves; outside the time range the run is refused, or the end values hold when extrapolation is on; a scale factor scales the displacement linearly. Current patterns for the stages of a tide are used at those stages. Forward then backward integration of a steady field returns to the start to the order of the method.",
     "inputs configurations",
     "every grid kind, velocity field, time axis, element position, method, scale and step",
     UNT + "interpolation must be right at every place, edge and time.",
     ["movers/py_current_movers.py", "movers/c_current_movers.py", "environment/gridded_objects_base.py", "environment/environment_objects.py", L + "GridCurrentMover_c.cpp", L + "CATSMover_c.cpp", L + "TimeGridVel_c.cpp", L + "TriGridVel_c.cpp", L + "CurrentCycleMover_c.cpp", L + "ShioTimeValue_c.cpp"],
     [("CurrentMover.get_move and integrators", "movers/py_current_movers.py"), ("CATS mover", L + "CATSMover_c.cpp")],
     "analytic-field oracle on displacements", "Linear and rigid-rotation fields, for which interpolation is exact, give the expected displacement.",
     ["mover displacements"])

prop("P13", "Random and vertical movement has the stated statistics",
     "Random walks have zero mean and the variance given by the diffusion coefficient and the step (a first step is drawn from a disc, with its own spread), uncorrelated in x and y, unchanged by how the elapsed time is cut into steps, and depend only on the seed. "
     "Vertical movement never takes an element above the surface, buoyant elements rise at the speed of their size, and mixing steps shorter than the layers use the coefficient of the layer the element is in.",
     "inputs configurations schedules",
     "every diffusion coefficient, step, uncertainty factor, depth, mixed-layer depth and boundary",
     UNT + "statistics need whole ensembles, bounds need every draw.",
     ["movers/random_movers.py", "movers/vertical_movers.py", L + "Random_c.cpp", L + "RandomVertical_c.cpp", L + "RiseVelocity_c.cpp"],
     [("random walk", L + "Random_c.cpp"), ("vertical mixing and reflection", L + "RandomVertical_c.cpp")],
     "ensemble statistics with fixed error probability, per-draw bound monitors", "Moments with 1e-9 false-alarm bounds; bounds on every draw.",
     ["mover displacements for large ensembles"])

prop("P14", "Weathered oil stays physically possible",
     "After every step every element has finite, non-negative mass and component masses, a water fraction between zero and the oil's limit, density, viscosity and area that are finite and positive, and fractions of loss between zero and one. "
     "This holds for every oil, environment and step length the model accepts, with any set of weathering processes.",
     "inputs histories configurations",
     "every oil, water temperature, wind, wave state, step length and weathering set, at every step",
     UNT + "physical bounds must survive every combination and every step length.",
     ["weatherers/evaporation.py", "weatherers/emulsification.py", "weatherers/spreading.py", "weatherers/dissolution.py", "weatherers/natural_dispersion.py", "weatherers/bio_degradation.py", "spills/gnome_oil.py", "cy_gnome/cy_weatherers.pyx"],
     [("per-process updates", "weatherers/*.py"), ("Emulsification clipping", L + "Weatherers_c.cpp")],
     "bound monitors on every element array after every step", "Bounds evaluated on all elements of all steps.",
     ["element arrays after each step"])

prop("P15", "Weathering only goes one way",
     "Between steps no element gains oil, no cumulative loss in the mass balance ever decreases, evaporation takes the more volatile part first and never makes oil lighter, density is that of the components left mixed with the water taken up, water content and slick area do not go down. "
     "With a process switched off its loss stays zero; elements on land, below the surface or not oil do not evaporate, and the uncertainty set is not weathered.",
     "histories inputs configurations",
     "every run with any set of weatherers and active ranges",
     UNT + "monotonicity is a property of step histories.",
     ["weatherers/core.py", "weatherers/evaporation.py", "weatherers/spreading.py", "weatherers/natural_dispersion.py", "weatherers/dissolution.py", "spill_container.py"],
     [("exponential decay", "weatherers/core.py"), ("mass balance accumulators", "weatherers/*.py")],
     "history monitor (monotone accumulators)", "Every pair of consecutive states compared.",
     ["element arrays and mass balance between steps"])

prop("P16", "Cleanup removes what the operation says and no more",
     "Skimming, burning, chemical dispersion and recorded beaching act only inside their time window, never remove more than their rate, efficiency and the oil present allow, and report exactly the amount that left the elements. "
     "An operation with enough oil to itself removes in total rate times time times efficiency regardless of how its window falls on the time steps.",
     "inputs configurations histories",
     "every window, amount, unit, efficiency, step length and oil state",
     UNT + "the window has to be right for every alignment with the steps.",
     ["weatherers/cleanup.py", "weatherers/manual_beaching.py"],
     [("time window clipping", "weatherers/cleanup.py _set__timestep"), ("removal", "weatherers/cleanup.py weather_elements")],
     "removal accountant per step against the operation's own parameters", "Removed amount per step compared with an independent window model.",
     ["mass balance before and after each step"])

prop("P17", "A saved model reloads to the same model",
     "Saving a model, into a folder, a zip file or an open archive, and loading it gives a model equal to the original in every setting and collection, with shared objects still shared, and running it gives the same results (array settings are written with 8 significant digits). "
     "Every data file is saved whole, even where two have the same name; saving again gives the same files. An archive that is damaged or incomplete is refused, and no archive, whatever the paths in it, makes loading write outside its temporary folder.",
     "inputs configurations fault_sequences",
     "every model composition, save target, repeated save/load, and damaged archives",
     UNT + "a round trip must hold for every composition of objects.",
     ["persist/save_load.py", "persist/base_schema.py", "gnomeobject.py", "model.py"],
     [("save and load", "gnomeobject.py save/load"), ("safe extraction", "persist/save_load.py")],
     "round-trip comparator plus hostile archives in scratch folders", "Loaded models compared by serialisation and by trace.",
     ["serialised forms, run traces, files written"])

prop("P18", "Every object survives serialisation unchanged",
     "For every kind of model component, serialising it and building it back gives an object with the same settings, values in the same units and times to the second, and serialising that gives the same document. "
     "Saving to a file and loading gives the same settings too. Updating an object from a document sets the settings that differ, leaves the others alone (apart from ones tied to them), reports it whenever something changed, and never alters the document.",
     "inputs configurations",
     "every component class and every legal setting value",
     UNT + "the space of settings is large and each class has its own schema.",
     ["gnomeobject.py", "persist/base_schema.py", "persist/extend_colander.py", "persist/validators.py"],
     [("serialize/deserialize", "gnomeobject.py"), ("colander schemas", "persist/*.py and each class's schema")],
     "round-trip comparator over generated settings", "Documents compared field by field.",
     ["serialised documents and attributes"])

prop("P19", "Collections keep insertion order and identity",
     "A collection of model components behaves like a list for order, length, indexing and slicing and like a dictionary for access by identifier, through any sequence of additions, removals and replacements. "
     "Replacing keeps the position, adding a present element changes nothing, and listeners are told of each change exactly once; adding a component to a model brings the environment objects it uses along.",
     "histories inputs",
     "every sequence of operations, with index, negative index and identifier access",
     "The unit tests apply short fixed sequences; index bookkeeping breaks only in particular orders of removal and replacement.",
     ["utilities/orderedcollection.py", "model.py"],
     [("index map and holes", "utilities/orderedcollection.py"), ("model callbacks", "model.py _callback_add_*")],
     "list-model comparison after every operation of random histories", "Whole observable state compared after each operation.",
     ["results of every operation and callback"])

prop("P20", "Cached steps are returned exactly as stored",
     "Any time step that was stored can be read back, in any order and any number of times, with the same arrays, values, types, time and uncertainty set as when it was stored, and what a reader does with the result never changes what is stored. "
     "After a rewind nothing of the old run can be read, asking for a step that is not there is an error, and two caches never see each other's data.",
     "histories inputs schedules",
     "every sequence of stores, reads, rewinds and deletions, cache enabled or not, any set of arrays",
     UNT + "it is about all histories of use.",
     ["utilities/cache.py", "model.py"],
     [("ElementCache", "utilities/cache.py"), ("stale cached results after changes", "model.py")],
     "shadow-copy comparator over random store/read histories", "Deep copies taken at store time are the oracle.",
     ["arrays handed to and received from the cache"])

prop("P21", "NetCDF output records the run faithfully",
     "The file written during a run holds, for every output step and in order, every element in the model with the same position, depth, mass, status, age and identity, the right times, and the mass balance; reading any step back gives those values to the stored precision. "
     "Forecast and uncertainty go to separate files, and compression, zipping and array selection do not change content.",
     "inputs histories configurations",
     "every run length, element count per step (including zero), chunk size, array selection and output interval",
     UNT + "ragged arrays and chunk edges break only at particular counts.",
     ["outputters/netcdf.py", "outputters/outputter.py"],
     [("ragged append", "outputters/netcdf.py write_output"), ("read_data", "outputters/netcdf.py")],
     "shadow-copy comparator of file content", "What the probe recorded at each step is the oracle.",
     ["netCDF variables versus arrays recorded at write time"])

prop("P22", "Each output step is written exactly once",
     "An output is produced at the first step, the last step and every output interval as configured, at no other step, never twice for one step, and (first and last step aside) not before the output start time, from which the intervals count. "
     "The choice depends only on model time, not on the other outputs, and rewinding starts afresh.",
     "configurations histories",
     "every output interval, time step, start time, zero/last step option, run length and sequence of rewinds",
     UNT + "the schedule must be right for every alignment of intervals.",
     ["outputters/outputter.py", "model.py"],
     [("prepare_for_model_step / write decision", "outputters/outputter.py")],
     "exactly-once monitor over write events", "Write events compared with an independent schedule.",
     ["write_output calls of probe outputters"])

prop("P23", "All exporters show the same elements",
     "Shapefile, KMZ, GeoJSON, binary, JSON, ERMA package, oil-budget and weathering exports of one run contain the same elements, positions, statuses, times and amounts as the model had at each exported step, for forecast and uncertainty. "
     "Nothing is dropped, repeated or swapped (longitude for latitude, floating for beached), and every file is well formed.",
     "inputs histories configurations",
     "every run, element mix and output interval",
     UNT + "needs cross-format comparison on runs with all kinds of elements.",
     ["outputters/shape.py", "outputters/kmz.py", "outputters/geo_json.py", "outputters/weathering.py", "outputters/oil_budget.py", "outputters/binary.py", "outputters/json.py"],
     [("exporters", "outputters/*.py write_output")],
     "cross-format comparator of exported content", "Parsed exports compared with arrays recorded at write time.",
     ["exported files parsed back"])

prop("P24", "Native code never reads or writes out of bounds",
     "No use of the movers, maps, tides, winds and geometry functions, with elements in any number (none included), anywhere on or off the map and in any state, with any raster or polygon, and with sound or damaged tide, CATS, PtCur, GRIDCUR, NetCDF and topology files, "
     "makes the native code read or write outside its memory, use memory it has freed, divide an integer by zero, crash or never end. A file that cannot be used is refused with an error, and the process stays usable. "
     "(Requests for more memory than there is, and faults inside the NetCDF library, are not meant.)",
     "inputs fault_sequences histories",
     "every call sequence on the native classes, with empty, single and large arrays and damaged input files",
     "Tests run uninstrumented builds on well-formed input; a read past an array end usually goes unnoticed.",
     ["cy_gnome/cy_land_check.pyx", "cy_gnome/cy_ossm_time.pyx", "cy_gnome/cy_helpers.pyx", "utilities/geometry/cy_point_in_polygon.pyx", L + "OSSMTimeValue_c.cpp", L + "TimeGridVel_c.cpp", L + "CATSMover_c.cpp", L + "GridCurrentMover_c.cpp"],
     [("bounds and allocation handling", L + "*.cpp"), ("array hand-over", "cy_gnome/*.pyx")],
     "AddressSanitizer and UndefinedBehaviorSanitizer on the rebuilt native code", "Sanitizer verdicts on all executed paths of hostile workloads.",
     ["sanitizer reports"])

prop("P25", "Geometry answers agree with exact geometry",
     "A point is reported inside a polygon exactly when it is (points within rounding of the boundary aside), independent of where the ring starts and of its direction, for one point or many at once. "
     "Polygon sets give back every polygon as it was put in, bounding boxes contain exactly what they bound and combine like boxes, areas and random points of triangulated shapes belong to the shape, and thinning or hulls never lose extreme points.",
     "inputs",
     "every simple polygon, including concave and degenerate ones, every point and box",
     "Tests use one or two shapes; the orientation, ring start, boundary and bulk cases are unbounded.",
     ["utilities/geometry/cy_point_in_polygon.pyx", "utilities/geometry/c_point_in_polygon.c", "utilities/geometry/polygons.py", "utilities/geometry/BBox.py", "utilities/geometry/PinP.py", "utilities/hull.py", "utilities/geometry/poly_clockwise.py"],
     [("crossing test", "utilities/geometry/c_point_in_polygon.c"), ("PolygonSet indexing", "utilities/geometry/polygons.py"), ("BBox", "utilities/geometry/BBox.py")],
     "exact rational reference geometry on generated shapes", "Every answer compared with exact rational arithmetic.",
     ["return values"])

prop("P26", "Projections and pixel maps invert and keep north up",
     "Converting positions to pixels and back returns the position to within one pixel (or rounding, when not rounded), north stays up and east right, the bounding box of a map fits in its image and scales keep aspect. "
     "Metres to degrees and back are inverse at every latitude, distances and bearings agree with spherical geometry, and a step north then south by the same distance returns to the start.",
     "inputs configurations",
     "every bounding box, image size, projection kind and position",
     "Tests use a few boxes; latitude and aspect dependent errors need all of them.",
     ["utilities/projections.py", "utilities/map_canvas.py", "utilities/geometry/BBox.py", "utilities/transforms.py"],
     [("projections", "utilities/projections.py"), ("geodesic helpers", "utilities/projections.py, utilities/transforms.py")],
     "inverse and reference-formula monitors", "Round trips and independent formulas on generated positions.",
     ["return values"])

prop("P27", "Time conversions are exact and ordered",
     "Converting a date to seconds and back is exact to the second for every date the model accepts, independent of the machine's time zone, and preserves order and differences. "
     "Infinite times compare consistently with every finite time; rounding and parsing of times never move an instant.",
     "inputs configurations",
     "every date and time in range, both directions, arrays and scalars, any zone setting",
     "Tests check single dates; leap years, month ends, zones and array forms are unbounded.",
     ["utilities/time_utils.py", "utilities/inf_datetime.py", "cy_gnome/cy_helpers.pyx", L + "StringFunctions.cpp"],
     [("date_to_sec / sec_to_date", "utilities/time_utils.py"), ("InfDateTime", "utilities/inf_datetime.py")],
     "calendar oracle (independent arithmetic)", "Each conversion compared with the proleptic calendar.",
     ["return values"])

prop("P28", "Oil and water properties follow temperature and units",
     "Density, viscosity and other oil properties asked for at a temperature are exact at the measured points, move the right way with temperature, and never depend on the unit in which the question or the data is expressed; water properties agree with their unit conversions. "
     "Masses and volumes convert back and forth without change, and an unknown unit is refused rather than guessed.",
     "inputs configurations",
     "every oil record, temperature, unit and amount",
     UNT + "unit handling must be right for every pair of units.",
     ["spills/gnome_oil.py", "spills/substance.py", "environment/water.py", "spills/spill.py", "utilities/__init__.py", "ops/density.py", "ops/viscosity.py"],
     [("oil properties", "spills/gnome_oil.py"), ("unit conversion", "environment/water.py, spills/spill.py")],
     "unit-independence and reference monitors", "Pairs of equivalent questions compared.",
     ["returned properties"])

prop("P29", "Random distributions stay in their range",
     "Every value drawn from a bounded distribution lies within its bounds, the draws follow the stated distribution and depend only on the seed, and re-seeding reproduces every stream used by the model. "
     "Draws from unbounded distributions do not depend on how the elements are split into calls.",
     "inputs schedules configurations",
     "every parameter set, number of draws and seed",
     "Tests look at a few parameter sets and rough moments.",
     ["utilities/distributions.py", "utilities/rand.py", "utilities/compute_fraction.py"],
     [("distributions", "utilities/distributions.py"), ("seed", "utilities/rand.py")],
     "bound and goodness-of-fit monitors with fixed error probability", "Bounds on each draw, Kolmogorov-Smirnov at 1e-9.",
     ["draws"])

prop("P30", "Oil weathers by the formulas the model documents",
     "In every step of every run, each floating element loses to evaporation, takes up as water, spreads over and loses to dispersion and sediment exactly what the documented formulas give for its own state and the wind, waves and water of that moment: component by component for evaporation, from the start condition of the oil on for emulsions, up to the stated limits of thickness, coverage and water content. "
     "Density and viscosity follow from what the element has become, the means reported are the mass-weighted means of the elements, and a process changes nothing it does not act on: no other element and no other quantity.",
     "inputs histories configurations",
     "every oil, slick history, wind, wave and water condition (given or derived, changed during the run), step length, release and combination of processes, at every step",
     UNT + "the tests that exist compare single steps of single processes to stored numbers; each branch of the formulas is reached only in some states of a slick.",
     ["weatherers/evaporation.py", "weatherers/emulsification.py", "weatherers/natural_dispersion.py", "weatherers/spreading.py", "environment/waves.py", "utilities/weathering/adios2.py", "utilities/weathering/lehr_simecek.py", "ops/density.py", "ops/viscosity.py", "ops/aggregated_data.py", "py_gnome/lib_gnome/Weatherers_c.cpp"],
     [("Evaporation", "weatherers/evaporation.py _set_evap_decay_constant"), ("emulsify", "lib_gnome/Weatherers_c.cpp"), ("dispersion", "weatherers/natural_dispersion.py"), ("Fay spreading and Langmuir cells", "weatherers/spreading.py"), ("density and viscosity", "ops/")],
     "online reference monitor on every call of every weathering process in generated runs", "Each call of a process is compared, element by element, with formulas written down independently; relative tolerance 1e-7.",
     ["weather_elements of every process (arrays before and after), data arrays and mass_balance after model.step()"])

prop("P31", "Input files are read as they were written",
     "Every valid wind, tide, shoreline (BNA), gridcur, splot or time file is read to exactly the values it contains, whatever its line ends, blank lines, units or form of header, and a gridcur file written by the package reads back the same. "
     "A damaged file (a record with missing, extra or impossible fields, values out of range, cut off, no data) gives an error, never silently wrong values; in a wind file this is claimed after its first record, which cannot be told from a header line.",
     "inputs fault_sequences",
     "every well-formed file of each kind, and truncated or damaged ones",
     "Tests read a few sample files.",
     ["environment/wind.py", "utilities/timeseries.py", "utilities/file_tools/haz_files.py", "environment/gridcur.py", "spills/release.py", "environment/gridded_objects_base.py", "environment/tide.py"],
     [("OSSM reader and writer", "environment/wind.py, utilities/timeseries.py"), ("BNA reader", "utilities/file_tools/haz_files.py")],
     "writer-reader comparator over generated files", "Generated content is the oracle.",
     ["parsed values"])

prop("P32", "The land raster matches the shoreline",
     "A map built from shoreline polygons calls a place land exactly when it lies in a land polygon and not in a lake (of overlapping ones the later decides), to within two cells of the shoreline, at every resolution and map extent. "
     "The spillable area and the map bounds admit exactly the positions inside them, land and water answers are mutually exclusive, and a place off the map is neither water nor a place to spill.",
     "inputs configurations",
     "every shoreline, raster size, extent and query position",
     UNT + "every position must be classified correctly, not the few in a test.",
     ["maps/map.py", "utilities/map_canvas.py", "utilities/projections.py", "utilities/file_tools/haz_files.py"],
     [("rasterisation", "maps/map.py build_raster / MapFromBNA"), ("on_land / in_water / allowable_spill_position", "maps/map.py")],
     "point-in-polygon oracle away from the shoreline", "Exact polygon membership at positions farther than a cell from any edge.",
     ["on_land, in_water, on_map, allowable_spill_position answers"])

prop("P33", "The model completes and judges its own set-up correctly",
     "Before every run each process that lacks a wind, water or waves takes the first one of the model's environment, unless it was told not to; references a user gave are never replaced, objects a process refers to join the environment, spreading and Langmuir circulation are added exactly when a process needs the area of the slick, and the run is the same as if all of this had been given by hand, in whatever order processes were added. A run in which a process lacks what it needs, a spill is released before the start, the oil is heavier than the water, or weathering goes backward is refused with an error. "
     "Checking the inputs reports every spill off the map, on land or released late, a run without spills, movers away from the map and water below the pour point, reports nothing else of these, and changes nothing about the run; questions about elements (get_spill_data, get_spill_property) give exactly the elements that meet the condition.",
     "inputs configurations",
     "every collection of processes and environment objects, given or missing references, orders of adding, places and times of spills, and conditions asked for",
     UNT + "the wiring depends on which of many combinations of given and missing references a user set up, and a wrong one still runs, with numbers from another wind or water.",
     ["model.py", "gnomeobject.py", "environment/waves.py", "weatherers/__init__.py", "weatherers/evaporation.py", "weatherers/natural_dispersion.py", "weatherers/cleanup.py", "movers/c_wind_movers.py", "spills/substance.py"],
     [("default references", "gnomeobject.py _attach_default_refs, model.py setup_model_run"), ("input checks", "model.py check_inputs, validate"), ("order of processes", "weatherers/__init__.py sort_order"), ("element queries", "model.py get_spill_data")],
     "reference monitor of the wiring, twin runs and a model of the reports", "The wiring is predicted from the set-up and compared object by object; runs are compared bit for bit with twins wired by hand.",
     ["references held by every object after the first step, messages and verdict of check_inputs, element arrays of twin runs"])

FIX = []


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            if p["_t"]:
                fd.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append(dict(property=i,
                               quick_cmd="python3 /verif/check.py %s --tier quick" % i,
                               thorough_cmd="python3 /verif/check.py %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i,
                               technique="runtime monitoring: " + p["_t"], level="exploration",
                               level_note=p["_n"]))
        else:
            na.append(dict(property=i, reason=p.get("_na", "no check registered yet; the family applies, the monitor is being built")))
    m = dict(version=1, setup_cmd="python3 /verif/lib/buildtree.py plain asan",
             checks=checks, not_applicable=na,
             notes="All checks build the package from /repo's working tree into /verif/.cache and a scratch folder; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(m, fd, indent=1)
        fd.write("\n")
    import collections
    print(len(P), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
