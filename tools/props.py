import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
S="celest/schedule/"; C="celest/coordinates/"; F="celest/coordinates/frames/"
p("C01","Unit algebra preserves the meaning of every expression",
 "Every expression of units built from products, quotients, powers, reciprocals and numeric factors stands for the factor and dimension obtained by multiplying out its parts, however it is nested, ordered or written, and so do named units made from it and the text it prints. Two expressions have equal dimensions exactly when their base dimensions agree, and units of different dimensions never convert into one another. Building an expression changes none of the units it is made of.",
 ["programs","inputs"],"all unit expressions over the predefined units, and all pairs of them",
 "Tests compose two or three units once; nesting, cancelling factors, numeric factors inside powers and reciprocals are unbounded.",
 ["celest/units/core.py","celest/units/display.py","celest/units/utils.py","celest/units/unit_initialization.py"],
 [("CompoundUnit factor collection and decomposition","celest/units/core.py"),("dimension and unit strings","celest/units/display.py")],
 ["unit.dimension, str(unit), conversion of a quantity of the unit"])
p("C02","Converting a value between units multiplies by the exact factor",
 "Converting a quantity to any unit of the same dimension gives the value times the ratio of the units' definitions, for scalars and for arrays of every type, shape and memory layout, and converting back or through other units gives the original value. The predefined units have their internationally defined sizes. Conversion never changes the quantity or data it starts from, nor does editing what it returns, and a unit of another dimension is refused with an error.",
 ["inputs"],"all values, array kinds and pairs of units, and chains of conversions",
 "Tests convert a few float scalars between a few units; integer arrays, views and long chains are not reached.",
 ["celest/units/quantity.py","celest/units/core.py","celest/units/unit_initialization.py"],
 [("Quantity.to and convert_to","celest/units/quantity.py"),("total_scale","celest/units/core.py"),("factors of predefined units","celest/units/unit_initialization.py")],
 ["values returned by conversion"])
p("C03","Quantity arithmetic and comparison agree with physical values",
 "Adding, subtracting, multiplying, dividing, negating and comparing quantities gives the result of doing so with the physical values they stand for, elementwise for arrays, whatever units the operands are given in. Adding, subtracting or comparing quantities of different dimensions is refused, as are foreign operands. No operation changes its operands.",
 ["inputs","programs"],"all operand values, shapes and unit pairs, and nested expressions",
 "Tests use one or two scalar examples per operator, mostly in equal units.",
 ["celest/units/quantity.py"],[("operator methods","celest/units/quantity.py")],["results of operators"])
p("C04","Celestial and Earth-fixed positions rotate into each other",
 "Converting positions between the celestial and the Earth-fixed frame is, at each instant, the rotation of that instant by precession, nutation, frame bias and Earth rotation, agreeing with the IAU model within a few arcseconds between 1900 and 2100. It preserves lengths and angles between positions of the same instant, and converting there and back gives the original position, for every data type and unit. The instants, and the given data, are unchanged.",
 ["inputs"],"all positions, instants, batch sizes, units and array kinds",
 "Tests compare a handful of epochs with a table to kilometres; they cannot see small angle errors, other eras or batch-dependent mistakes.",
 [C+"transforms.py",C+"nutation_precession_matrices.py",C+"astronomical_quantities.py"],
 [("_gcrs_to_itrs and _itrs_to_gcrs",C+"transforms.py"),("bias, precession and nutation matrices",C+"nutation_precession_matrices.py")],["convert_to between the frames"])
p("C05","Geodetic coordinates are those of the WGS84 ellipsoid",
 "Converting Earth-fixed positions to geodetic latitude, longitude and height and back gives the WGS84 coordinates of the same point, anywhere from deep orbits to the poles, the equator and the antimeridian. Latitudes lie within 90 degrees and longitudes within 180 degrees of zero, and the round trip gives the original point. This holds in every angle and length unit.",
 ["inputs"],"all positions outside the Earth's core and all geodetic coordinates",
 "Tests check a few positions with loose tolerances; poles, axes, the antimeridian and heights far from the surface are not sampled.",
 [C+"transforms.py"],[("_itrs_to_wgs84, _wgs84_to_itrs and geodetic height",C+"transforms.py")],["convert_to between the frames"])
p("C06","Azimuth and elevation are measured from the local horizon",
 "The azimuth of a target is its direction clockwise from true north in the horizontal plane of the ground location, between 0 and 360 degrees, and its elevation the angle above that plane, between -90 and 90 degrees, both at the location's own geodetic vertical. This holds for targets and locations everywhere, the poles and the antimeridian included, from whatever frame and units they are given in.",
 ["inputs"],"all targets, instants and ground locations",
 "Tests compare one location with a table to a fraction of a degree.",
 [C+"transforms.py",C+"ground_location.py"],[("_itrs_to_azel, _azimuth and _elevation",C+"transforms.py")],["convert_to the azimuth-elevation frame"])
p("C07","Conversions between frames are consistent and elementwise",
 "Converting coordinates between any two frames gives the same answer directly as through other frames, keeps instants and their order, and treats each sample alone: splitting, joining, permuting or repeating a batch, or giving it in other units, changes no sample's answer. Converting to the frame coordinates are already in changes nothing, and conversions never modify their input. Conversions without a needed location, to frames of other kinds, and coordinates of other kinds are refused.",
 ["inputs","histories"],"all batches, pairs and chains of frames",
 "Tests convert one batch per pair; relations between paths and between batches are not compared.",
 [C+"coordinate.py",C+"transforms.py"],[("Coordinate.convert_to",C+"coordinate.py"),("vectorised transforms",C+"transforms.py")],["convert_to"])
p("C08","The orbiting frame is the local vertical, local horizontal one",
 "In the orbiting frame a satellite's position and velocity are those along the local vertical, the orbit's normal and the direction completing them, as documented: lengths and the angle between position and velocity are preserved, and the position lies along the vertical axis. This holds for every orbit and in every unit.",
 ["inputs"],"all positions and velocities which are not parallel",
 "Tests compare a few states with precomputed numbers.",
 [C+"transforms.py",F+"lvlh.py"],[("_gcrs_to_lvlh and its matrix",C+"transforms.py")],["conversion to the orbiting frame"])
p("C09","The attitude points the satellite at the ground location",
 "At every instant the roll, pitch and yaw reported for a ground location are those of the smallest rotation, in the satellite's orbiting frame, which turns the downward direction onto the line from the satellite to that location; instants and location are reported with it. This holds for satellites given in celestial or Earth-fixed frames and any units. A satellite without velocity is refused.",
 ["inputs"],"all orbits, instants and ground locations",
 "Tests compare one satellite and location with recorded numbers.",
 ["celest/satellite.py",C+"transforms.py"],[("Satellite.attitude","celest/satellite.py")],["attitude of a satellite"])
p("C10","Distance, look angle and altitude of a satellite are geometric",
 "The distance to a ground location is the straight-line distance, the look angle is the angle between the directions from the Earth's centre and from the location to the satellite, and the altitude is the height above the WGS84 ellipsoid, for every satellite, location and unit, satellites straight overhead included. They do not depend on the frame the satellite was given in. Satellites made of anything but celestial or Earth-fixed positions are refused.",
 ["inputs"],"all satellite positions, instants and ground locations",
 "Tests compare one location with recorded numbers and never pass overhead.",
 ["celest/satellite.py",C+"transforms.py"],[("Satellite.distance, look_angle, altitude","celest/satellite.py"),("_get_ang and _altitude",C+"transforms.py")],["methods of a satellite"])
p("C11","Ground locations keep valid coordinates and know their geometry",
 "A ground location accepts exactly the latitudes within 90 and longitudes within 180 degrees of zero, in whatever angle unit they are given, and refuses everything else with an error. It keeps the coordinates and units given, and its Earth-fixed coordinates and radius are those of the WGS84 point.",
 ["inputs"],"all latitudes, longitudes, heights and units",
 "Tests try one location and degrees only; limits in other units are not tried.",
 [C+"ground_location.py",C+"astronomical_quantities.py"],[("validation, radius and Earth-fixed coordinates",C+"ground_location.py"),("radius of curvature",C+"astronomical_quantities.py")],["constructor and properties of a location"])
p("C12","The text of a location shows its coordinates rounded",
 "The text of a ground location gives latitude and longitude in degrees, minutes and seconds with the right hemispheres, and the height, each rounded to its last printed digit: read back it is the location. Minutes and seconds never reach 60.",
 ["inputs"],"all latitudes, longitudes, heights and units",
 "Tests format a few angles; rounding carries near whole minutes and degrees are rare.",
 ["celest/angle_strings.py",C+"ground_location.py"],[("degree-minute-second formatting","celest/angle_strings.py")],["str of a location"])
p("C13","Calendar dates and days of the year are right",
 "The calendar date, fraction of the day, date-time and day of the year of every Julian date are those of the civil calendar, across month, year and century ends, leap years and the reform of 1582, for scalars and arrays alike. Dates and the day of the year grow with time, one day after another.",
 ["inputs"],"all Julian dates from 4713 BC to AD 9999",
 "Tests check a handful of textbook dates.",
 [C+"astronomical_quantities.py","celest/time.py"],[("from_julian and day_of_year",C+"astronomical_quantities.py"),("Time.datetime","celest/time.py")],["calendar functions and date-times"])
p("C14","Solar times and hour angles follow the Sun",
 "At every instant and longitude, mean solar time is the hour of day shifted by the longitude, true solar time differs from it by the equation of time and agrees with the true Sun within seconds, and hour angles are the solar times past noon, all between 0 and 24 hours. Offsets are added to every instant, one longitude serves all instants and several serve one each, and the given instants are unchanged.",
 ["inputs"],"all instants of 1900-2100 and longitudes, scalars and arrays",
 "Tests check a few instants at one longitude.",
 ["celest/time.py",C+"astronomical_quantities.py"],[("Time solar methods","celest/time.py"),("equation_of_time",C+"astronomical_quantities.py")],["time methods"])
p("C15","Sidereal times and the Earth rotation angle follow the Earth",
 "At every instant, mean and apparent sidereal time at Greenwich and at any longitude, and the Earth rotation angle, agree with the IAU models, lie between 0 and 24 hours or 0 and 360 degrees, differ between longitudes by the longitude, and differ from each other by the equation of the equinoxes. This holds for scalars and arrays, with and without offsets.",
 ["inputs"],"all instants of 1900-2100 and longitudes, scalars and arrays",
 "Tests check one or two instants.",
 ["celest/time.py",C+"astronomical_quantities.py"],[("Time.gmst, lmst, gast, last","celest/time.py"),("earth_rotation_angle",C+"astronomical_quantities.py")],["time methods"])
p("C16","Astronomical quantities follow their documented series",
 "Nutation, precession angles, mean and apparent obliquity, the fundamental arguments of Sun and Moon, the Sun's right ascension and the equation of the equinoxes are at every instant the values of their documented series, and agree with the IAU models within the accuracy of the short series. Each sample of an array has the value it has alone, and inputs are unchanged.",
 ["inputs"],"all instants of 1900-2100, scalars and arrays",
 "Tests check a textbook date per quantity; a wrong small coefficient shows only at other dates.",
 [C+"astronomical_quantities.py"],[("series of the quantities",C+"astronomical_quantities.py")],["functions of a Julian date"])
p("C17","Visible time windows are exactly the maximal visible runs",
 "Without lighting constraint, the windows of a satellite over a location are exactly the maximal runs of consecutive samples at which its elevation exceeds the threshold, in order, from first to last sample of each run, each with the attitude towards the location at its samples. Never visible gives no windows and always visible gives one. Thresholds outside 0 to 90 degrees and satellites without velocity are refused, and the satellite is unchanged.",
 ["inputs"],"all satellites, locations, thresholds and patterns of visibility",
 "Tests use one recorded orbit; runs at either end, single samples and never or always visible locations are not reached.",
 ["celest/encounter/window_generator.py","celest/encounter/window_handling.py"],[("generate_vtws","celest/encounter/window_generator.py")],["windows generated"])
p("C18","Day and night windows split visibility by the Sun",
 "Windows restricted to day hold exactly the visible samples with the Sun above the location's horizon, those restricted to night the others, in maximal runs of consecutive samples: together they are the windows of any lighting, and they share no sample. This holds at all latitudes and seasons, polar day and night included. Anything but a lighting condition is refused.",
 ["inputs"],"all satellites, locations, thresholds, seasons and lighting conditions",
 "Tests need an ephemeris file which is missing, so nothing of it runs.",
 ["celest/encounter/window_generator.py"],[("lighting constraint and Sun elevation","celest/encounter/window_generator.py")],["windows generated"])
p("C19","Window collections behave as ordered lists of one kind",
 "After any history of additions, a collection holds exactly the windows added, in order: length, indexing, slicing, membership and every iteration agree, whether an earlier or simultaneous iteration finished, stopped or is nested inside. A window of another kind than the first, or anything else, is refused and leaves it as it was, and collections share nothing.",
 ["histories"],"all histories of additions, refusals, indexing and interleaved iterations",
 "Tests iterate once over one collection.",
 ["celest/encounter/window_handling.py"],[("WindowCollection","celest/encounter/window_handling.py")],["length, items and iteration"])
p("C20","Every schedule is feasible and leaves nothing simple out",
 "In every generated schedule each observation lies within a visible time window of its request's location under the requested lighting, lasts the requested time, ends before its deadline, has at least the requested image quality and, where a look angle is requested, starts where the satellite's pitch passes through it; no two observations overlap and no request is observed twice. A request left out could not have been added at the middle, or look angle, of one of its windows, and the schedule is worth at least as much as any single possible request. Schedulers without requests, and wrong satellites or thresholds, are refused.",
 ["inputs","histories"],"all sets of requests, satellites, search settings and random choices, and repeated generation",
 "Tests generate from one set of ten requests and look at the class of the result.",
 [S+"scheduler.py",S+"insertion_operators.py",S+"scheduling_utils.py"],
 [("insertion checks: bounds, deadline, quality, conflicts, look angle",S+"insertion_operators.py"),("Scheduler.generate",S+"scheduler.py")],["returned observation windows against the requests"])
p("C21","The adaptive search keeps its rules and returns the best found",
 "The search returns the best of the starting solution and all solutions it made, never worse than the start, without changing the starting solution or sharing parts with it. Each of at most the given number of iterations applies one removal and then one insertion operator, with the given counts, to a copy of the current solution; better or equal results always become current, worse ones with a chance which starts from certainty for no worsening, shrinks with the worsening and over iterations by the annealing coefficient, and is none when the temperature is zero, and the search ends as soon as the best solution is complete. Operators gain or lose weight by what they achieved - a new best counting 3, an improvement 2, mere acceptance 1, rejection 0 of 6 - mixed in by the reaction factor, and are drawn by weight; equal random seeds give equal searches.",
 ["schedules","inputs","histories"],"all solutions, cost functions, operators, settings and random choices",
 "Tests run one toy search to completion.",
 [S+"alns.py",S+"scheduling_utils.py"],[("ALNS.solve, acceptance and weights",S+"alns.py")],["calls of cost and operator functions, returned solution, weights"])
p("C22","Request bookkeeping survives every sequence of operations",
 "After any history of adding, scheduling, unscheduling, sorting, inserting and removing, all requests are present and as given, the number scheduled and the cost (minus the scheduled priorities) are right, and scheduled requests keep their window, start and duration unless unscheduled. Removals unschedule exactly the asked number, or all if fewer are scheduled - the highest priorities, most opportunities, most conflicting, or uniformly at random any - and insertions add at most the asked number of feasible, conflict-free observations, by decreasing priority, increasing opportunities, or into each request's least conflicting window, stopping short only when nothing more fits. Sorts order as they say and change nothing else.",
 ["histories","inputs"],"all histories of operations on all sets of requests",
 "Tests apply each operation once to fully or not at all scheduled requests.",
 [S+"request_handler.py",S+"removal_operators.py",S+"insertion_operators.py",S+"scheduling_utils.py"],
 [("RequestHandler",S+"request_handler.py"),("removal operators",S+"removal_operators.py"),("insertion operators",S+"insertion_operators.py")],
 ["rows, counts and accessors of the request list after each operation"],
 [("requests","rows of scheduled state and request data",S+"request_handler.py"),("number_of_scheduled_requests","running count",S+"request_handler.py")])
p("C23","The schedule handed out is the solution found",
 "The observation windows returned are exactly the scheduled requests of the solution the search ended with, each with its start, duration and location, and with the attitude towards that location, in its window, at the sample nearest to the start. Generating again, also after more requests, gives such a schedule for all requests and leaves earlier ones, and the requests, as they were. Saved to a file, the schedule lists the same observations.",
 ["inputs","histories"],"all sets of requests and repeated generation",
 "Tests check only that a collection comes back.",
 [S+"scheduler.py"],[("building observation windows from the solution",S+"scheduler.py")],["returned observation windows"])
p("C24","Saved text files hold the data, aligned and labelled",
 "Saving any frame, satellite, window collection or layered table writes one text file of the given name, ending in .txt, which replaces any earlier one and reads back as the same data: title, parameters and layers in order, one labelled column with its unit per coordinate, one row per sample in order, values to 15 decimals. Columns and their underlines are aligned in every row. Saving changes nothing else, and empty collections or impossible paths are errors.",
 ["inputs"],"all data, sizes, magnitudes, units, formats and file names",
 "Tests check that files exist.",
 ["celest/file_save.py","celest/satellite.py","celest/encounter/window_handling.py",F+"attitude.py",F+"azel.py",F+"gcrs.py",F+"itrs.py",F+"lvlh.py",F+"wgs84.py"],
 [("TextFileWriter","celest/file_save.py"),("save_text_file methods","celest/satellite.py")],["files written"])
p("C25","Coordinate containers keep their data and refuse misfits",
 "A frame gives back through its accessors exactly the instants, coordinates, units and location it was made of, readable in every unit of the dimension, and as a table with one row per sample and one column per coordinate, which is the caller's own. Columns and instants which are not one-dimensional and of one length are refused, whichever of them differs. Coordinates and satellites cannot be made of anything but the frames they accept.",
 ["inputs"],"all lengths, data types, memory layouts, units and misfits",
 "Tests build frames from equal-length arrays and try few misfits.",
 [F+"base_positions.py",F+"attitude.py",F+"azel.py",F+"gcrs.py",F+"itrs.py",F+"lvlh.py",F+"wgs84.py",C+"coordinate.py"],
 [("validation, accessors and to_numpy",F+"base_positions.py")],["accessors and tables of frames"])
p("C26","Answers depend on their arguments only",
 "Every calculation gives bit for bit the same answer for the same arguments, whatever was calculated before, in whatever order, how often, in which process and from how many threads at once. No calculation changes the objects and arrays it is given or any process-wide state - the random sources included, the scheduler's search excepted. With the same random seed the same requests give the same schedule.",
 ["histories","schedules","inputs"],"all orders, repetitions and thread interleavings of operations on shared objects, and all hash seeds",
 "Tests run each operation once on fresh objects in one thread.",
 ["celest/satellite.py","celest/time.py",C+"transforms.py",C+"astronomical_quantities.py","celest/encounter/window_generator.py","celest/units/quantity.py",S+"scheduler.py"],
 [("pure functions over immutable inputs",C+"transforms.py"),("deep copies in the search",S+"alns.py")],["answers, inputs and global state after each operation"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
NOTE={
}
checks=[]
for x in P:
    checks.append({"property":x["id"],"quick_cmd":"./check %s quick"%x["id"],"thorough_cmd":"./check %s thorough"%x["id"],
      "technique":TECH.get(x["id"],"") if False else None,"level":"exploration","level_note":None})
TECH={
"default":"runtime monitoring: %s",
}
T={"C01":"random unit programs, online oracle of factors and dimensions","C02":"conversion workloads, exact-factor oracle and purity monitors",
"C03":"differential execution against physical values","C04":"differential monitoring against erfa (IAU 2006/2000A) with invariants",
"C05":"differential monitoring against erfa geodetics","C06":"geometric oracle on observed conversions",
"C07":"metamorphic monitors over conversion histories","C08":"invariant and definition monitors","C09":"geometric oracle on observed attitudes",
"C10":"geometric oracle on observed measurements","C11":"limit probing with a geometric oracle","C12":"parse-back monitor of printed text",
"C13":"independent calendar oracle over dates","C14":"differential monitoring against erfa's Sun","C15":"differential monitoring against erfa's sidereal times",
"C16":"series oracle and differential monitoring against erfa","C17":"window oracle over drawn visibility patterns","C18":"window oracle with a simulated ephemeris",
"C19":"history checking against a list model","C20":"offline feasibility checker of generated schedules","C21":"trace checker over recorded operator calls",
"C22":"online bookkeeping monitor after every step of random histories","C23":"captured-solution monitor of the output",
"C24":"independent reader of written files","C25":"read-back and rejection monitors","C26":"order, thread and process interleaving with bitwise answer comparison"}
import importlib,sys
sys.path[:0]=["/repo","/verif/harness"]
for ch in checks:
    m=importlib.import_module("p_"+ch["property"].lower())
    ch["technique"]="runtime monitoring: "+T[ch["property"]]
    ass="; ".join(m.ASSUMPTIONS) or "none beyond the harness"
    ch["level_note"]="Monitors over generated executions of the real code (%s). No exhaustiveness claimed. Assumes: %s."%(
      ", ".join("%s %d"%(s[0],s[2]) for s in m.SCENARIOS)+" cases quick", ass)
json.dump({"version":1,"setup_cmd":"true","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: every monitor works through public calls, subclasses and traced callbacks. fix: commits in /repo and known findings are listed in known_findings.txt."},
 open("/verif/MANIFEST.json","w"),indent=1,ensure_ascii=False)
