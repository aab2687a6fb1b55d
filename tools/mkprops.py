#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
S="libsrc/geomodelgrids/serial/"; A="libsrc/geomodelgrids/apps/"; U="libsrc/geomodelgrids/utils/"; C="geomodelgrids/create/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Query answers depend only on model and point, never on query history",
 "For any valid model file and any sequence of point queries on one open handle, in any order, every answer equals the trilinear interpolation (in the model's logical space, after the documented rotation and topography mapping) of the stored grid values of the block that contains the point; NODATA is returned when a cell corner is NODATA. The answer is the same whatever was queried before, however the dataset is chunked or typed, and whatever cache-window size is configured.",
 ["histories","inputs","configurations"],
 "all models (blocks, uniform or variable resolution, azimuth, CRS, topography, chunking, storage type), all window/cache sizes, all orders of queries of in-domain points including cell, block and domain boundaries",
 "The tests query a fixed list of points in one order against five small sample files that mostly fit in one cache window, so the cache window seldom moves and never moves back.",
 [S+"Hyperslab.cc",S+"Block.cc",S+"Model.cc",S+"HDF5.cc",U+"Indexing.cc",U+"CRSTransformer.cc"],
 [("sliding cache window reloaded when the point leaves it","Hyperslab.cc getSlab"),("interpolation inside the window","Hyperslab.cc _interpolate3D"),("logical coordinates","Model.cc _toModelXYZ"),("block choice","Model.cc _findBlock"),("index lookup","Indexing.cc")],
 [("window origin/values","cached part of the dataset","Hyperslab._origin/_values")],["Query::query","Model::query"])
p("C02","Surface elevation answers equal the stored surfaces in any history",
 "For any model and any sequence of elevation queries interleaved with value queries, the top-surface (or topography/bathymetry) elevation at a point inside the model is the bilinear interpolation of the stored surface, zero when the model has no surface, with the topography/bathymetry query falling back to the top surface when only that exists. Outside every model the answer is NODATA, and answers do not depend on what was queried before.",
 ["histories","inputs","configurations"],
 "all models with/without each surface, uniform or variable surface resolution (including surfaces larger than the cache window), all interleavings of the query kinds",
 "Sample surfaces are far smaller than the 128x128 window, so the tests never slide the surface window and never interleave the query kinds.",
 [S+"Surface.cc",S+"Model.cc",S+"Hyperslab.cc",S+"Query.cc",U+"Indexing.cc"],
 [("surface window + 2D interpolation","Surface.cc query, Hyperslab.cc _interpolate2D"),("fallback to the top surface","Model.cc queryTopoBathyElevation"),("first containing model","Query.cc queryTopElevation")],None,["Query::queryTopElevation","Query::queryTopoBathyElevation"])
p("C03","First listed model containing the point answers, with values in requested order",
 "When several models are queried together, every answer comes from the first model in the given order that contains the point, with the values in the order and (case-insensitive) names the caller asked for; a point in no model yields NODATA for every value and a warning result. A request for a value some model lacks, or with units that differ between models, is refused at initialization.",
 ["histories","inputs","configurations"],
 "all lists of models (overlapping, nested, disjoint, different grids and value orders), all subsets/orders/cases of value names, all query sequences that hop between models",
 "Tests use two fixed model pairs and one value order; they do not hop between models on one handle.",
 [S+"Query.cc",S+"Model.cc"],
 [("model loop with break","Query.cc query"),("name->index map per model","Query.cc createModelValuesIndex"),("unit check","Query.cc checkUnits")],[("_valuesIndex","per-model map of requested value to stored value","Query.hh")],["Query::query result and values"])
p("C04","Squashing follows the current setting for every query in any toggle history",
 "At every moment of any sequence of squashing changes and queries, points above the squashing floor are looked up at the vertical coordinate given by the currently selected reference surface and floor elevation, and points at or below the floor are looked up unchanged. Turning squashing off restores plain answers exactly.",
 ["histories","inputs"],
 "all interleavings of setSquashing / setSquashMinElev / queries, all floors and points, models with and without topography/bathymetry",
 "Tests set squashing once per handle at one floor value; no toggling, no mixing with multiple models.",
 [S+"Query.cc",S+"cquery.cc"],
 [("squash mapping","Query.cc query switch"),("implied top-surface squashing when only the floor is set","Query.cc setSquashMinElev")],[("_squash/_squashMinElev","current squashing mode and floor","Query.hh")],["Query::query"])
p("C05","A read fault during a query is reported and never yields a wrong value",
 "If reading the model file fails while a point or elevation is being queried, that call reports failure (exception in C++/Python; ERROR status and NODATA values in C) and the process keeps running; if the call reports success its values are right. Once the faults stop, every later query on the same handle returns the right answer, including points near the one that failed; short or interrupted reads are invisible.",
 ["fault_sequences","histories"],
 "all placements, kinds (I/O error, bad region, short read, interrupted read, allocation failure) and durations of faults in any query history",
 "No test injects an I/O error; a failing read has never been executed by the suite.",
 [S+"Hyperslab.cc",S+"HDF5.cc",S+"Surface.cc",S+"Query.cc",S+"cquery.cc"],
 [("read errors turned into exceptions","HDF5.cc readDatasetHyperslab"),("window state update order","Hyperslab.cc getSlab"),("exception to status","cquery.cc")],[("window origin/values","must describe the same region, or be invalid","Hyperslab")],["return value / exception / status","values buffer"])
p("C06","Failed initialization is reported cleanly and the handle can be used again",
 "If opening or loading any of the model files fails (missing, unreadable, corrupt or incomplete file, missing or malformed metadata or grids, I/O error, out of memory or descriptors at any point), initialization reports an error and never reports success with wrong metadata or data; a query made then reports an error and does not crash. Initializing the same handle again without faults works as on a fresh handle, and no file stays open after a failed or finished session.",
 ["fault_sequences","histories","inputs"],
 "every point of the open/load/initialize sequence at which a call can fail, any number of failed attempts followed by a good one, any re-initialization with other models",
 "Tests check a handful of bad files on fresh handles; they never fail midway nor reuse the handle.",
 [S+"Query.cc",S+"Model.cc",S+"ModelInfo.cc",S+"HDF5.cc",S+"Block.cc",S+"Surface.cc",S+"cquery.cc"],
 [("metadata completeness check","Model.cc loadMetadata"),("handle reset on re-initialization","Query.cc initialize"),("RAII closing of HDF5 ids","HDF5.cc _HDF5Access")],[("_models","models of the session","Query.hh")],["initialize result","open descriptors"])
p("C07","C API status, message and log faithfully report every call",
 "In any sequence of C API calls each point query on an initialized handle that could not give a valid answer leaves WARNING (no model contains the point) or ERROR (failure) and a message naming the point, every such event is appended to the log exactly once and in order while logging is on, and nothing is logged while it is off. The status is sticky: it stays until it is reset or the next event replaces it. After a status reset, successful calls report OK with an empty message; turning logging off and on never loses what was already written; a failing log file never changes answers.",
 ["histories","fault_sequences"],
 "all interleavings of queries inside/outside, faults, status resets, logging toggles and log-file changes",
 "Tests check single events on a fresh handler, never sequences or a failing log device.",
 [S+"cquery.cc",U+"ErrorHandler.cc",U+"cerrorhandler.cc"],
 [("sticky status + message","ErrorHandler.cc setError/setWarning/resetStatus"),("append on re-enable","ErrorHandler.cc setLoggingOn")],[("_status/_message/_log","handler state","ErrorHandler.hh")],["return status","getMessage","log file bytes"])
p("C08","Independent handles do not influence each other and release what they hold",
 "Any number of query handles, on the same or different model files, used in any interleaving, each behave exactly as if used alone: neither creation, queries, finalization, destruction nor failures of one change the answers, status or log of another. Finalizing or destroying a handle releases its files, and a finalized handle can be initialized again.",
 ["schedules","histories","fault_sequences"],
 "all interleavings (decided by the simulator's scheduler) of the steps of several client sessions, with faults hitting one of them",
 "Tests use one handle at a time.",
 [S+"Query.cc",S+"Model.cc",S+"HDF5.cc",S+"cquery.cc",U+"CRSTransformer.cc"],
 [("per-handle models, windows and error handler","Query.hh"),("file access property list per handle","HDF5.cc open")],None,["answers per handle","open descriptors"])
p("C09","geomodelgrids_query writes one right row per input point or exits nonzero",
 "For any points file, the query application writes a header and exactly one row per input point, in order, holding the coordinates and the same values the library returns, and exits 0 only if all of that was written to the output file. If points cannot be read or parsed, a model cannot be read, or output cannot be written (full disk, I/O error, failure on close), it exits nonzero; rerunning after any crash or failure gives the complete output.",
 ["inputs","fault_sequences","crash_points"],
 "all points files (any count, spacing, with or without final newline, malformed lines), every read/write/close that can fail, crash at any write",
 "Tests run the application on a few good files and never look at the exit status under an I/O failure.",
 [A+"Query.cc","bin/query.cc"],
 [("read loop","apps/Query.cc run"),("stream output","apps/Query.cc run"),("exit status","bin/query.cc")],None,["exit status","output file bytes"])
p("C10","geomodelgrids_queryelev writes one right elevation per point or exits nonzero",
 "For any points file, the elevation application writes a header and exactly one row per input point, in order, with the elevation of the selected surface as the library returns it, and exits 0 only if all of that was written to the output file. Unreadable or malformed input, an unreadable model or an output write failure gives a nonzero exit.",
 ["inputs","fault_sequences","crash_points"],
 "all points files, both surfaces, every read/write/close that can fail, crash at any write",
 "As C09: success paths only.",
 [A+"QueryElev.cc","bin/queryelev.cc"],
 [("read loop and surface choice","apps/QueryElev.cc run"),("exit status","bin/queryelev.cc")],None,["exit status","output file bytes"])
p("C11","geomodelgrids_borehole writes the complete right profile or exits nonzero",
 "For any location inside the models, spacing and maximum depth, the borehole application writes one row per depth 0, dz, 2dz, ... up to the maximum depth starting at the top surface, with the values the library returns there, and exits 0 only if all of it was written. A location outside every model, a model read failure or an output failure gives a nonzero exit.",
 ["inputs","fault_sequences","crash_points"],
 "all locations, spacings and depths, every read/write/close that can fail",
 "Tests run two locations on good disks.",
 [A+"Borehole.cc","bin/borehole.cc"],
 [("depth loop","apps/Borehole.cc run"),("exit status","bin/borehole.cc")],None,["exit status","output file bytes"])
p("C12","geomodelgrids_isosurface writes the right raster or exits nonzero",
 "For any bounding box, resolution and isosurface targets, each raster pixel holds the depth at which the interpolated model, sampled at the search resolution, first reaches (or last, when deep is preferred) the target along the column at the pixel centre, to the search tolerance, and NODATA where there is no crossing; rows, columns and bands are laid out as the georeferencing says. The application exits 0 only if the complete raster was written.",
 ["inputs","fault_sequences"],
 "all boxes, resolutions, search settings and models; every write that can fail",
 "Tests check one raster against one model; the write path is never failed.",
 [A+"Isosurface.cc",U+"GeoTiff.cc","bin/isosurface.cc"],
 [("line search down/up","apps/Isosurface.cc LineSearchDown/LineSearchUp"),("raster write","GeoTiff.cc write/close")],None,["exit status","raster bytes"])
p("C13","geomodelgrids_info reports what the file holds and flags bad files",
 "For any list of model files the information application prints the metadata, coordinate system, blocks, surfaces and values as stored (numbers to the printed precision), and its verification prints OK only for what was checked and read successfully and Fail for missing or inconsistent metadata; one bad file does not change what is printed for the others. If a file cannot be opened, the application says so and exits nonzero; metadata that cannot be read is flagged.",
 ["inputs","fault_sequences","configurations"],
 "all models and single-attribute corruptions of them, option combinations, every read that can fail",
 "Tests compare output for a few sample files.",
 [A+"Info.cc",S+"ModelInfo.cc",S+"Model.cc","bin/info.cc"],
 [("verification steps","apps/Info.cc verify"),("metadata load","ModelInfo.cc load")],None,["stdout","exit status"])
p("C14","Created model is independent of batch size and matches the data source",
 "For any domain, surfaces and blocks and any batch size (or none), the creation application asks the data source for every grid point exactly once and stores at each grid node the value the data source gives for that node's physical location, with the top surface, topography/bathymetry and metadata stored as configured. The stored model is the same for every batch size, and no batch exceeds the requested number of points.",
 ["configurations","inputs"],
 "all grid shapes (including single-cell-wide batches), uniform and variable resolution, azimuths, vertical offsets, with/without surfaces, all batch sizes",
 "Tests use four fixed configurations with batch sizes that give one or few batches.",
 [C+"apps/create_model.py",C+"core/model.py",C+"utils/batch.py",C+"io/hdf5.py"],
 [("batch partition","utils/batch.py"),("point generation and surface lookup per batch","core/model.py generate_points/get_surface"),("batch write","io/hdf5.py save_block/save_surface")],None,["points seen by the data source","stored datasets"])
p("C15","Interrupted or repeated creation steps converge to the same model",
 "Model creation interrupted at any step, batch or file write, by an exception from the data source, an I/O error, a full disk or a crash, reports the failure (never success), and rerunning the interrupted step and the remaining steps yields the same model as an uninterrupted run. If a crash or failed write damaged the file itself, the rerun either gives the right model or reports the damage, and starting over gives the right model. Repeating a completed step, or running the steps in separate processes, changes nothing.",
 ["crash_points","fault_sequences","histories"],
 "every data-source call, batch, and storage operation at which the run can fail or die; all step sequences that respect the data dependencies",
 "Tests run every step once, in order, without failures.",
 [C+"apps/create_model.py",C+"io/hdf5.py",C+"core/model.py"],
 [("replace dataset on re-import","io/hdf5.py create_surface/create_block"),("open-write-close per operation","io/hdf5.py")],None,["exceptions / exit","stored model"])
p("C16","Metadata update rewrites all metadata and touches no data",
 "Updating metadata of an existing model makes every stored attribute of the domain, surfaces and blocks equal the current configuration, leaves every stored value untouched and adds or removes no dataset; if it fails part-way it reports the failure, and a rerun completes it with the data intact, or (when a crash or failed write damaged the file itself) reports the damage.",
 ["histories","fault_sequences","crash_points"],
 "all configuration changes between creation and update, any number of updates, failures and crashes at any storage operation",
 "One test updates three attributes once.",
 [C+"core/model.py",C+"io/hdf5.py",C+"apps/create_model.py"],
 [("attribute rewrite","io/hdf5.py save_domain/save_surface_metadata/save_block_metadata")],None,["stored attributes and datasets"])
p("C17","A created model queried back returns the data source's values",
 "For any configuration the creation application accepts, opening the file it wrote with the query library returns, at every grid node of every block (away from shared block faces; nodes on the domain edge up to roundoff), the value the data source supplied for that physical location, and the stored surface elevations; the metadata read back equal the configuration.",
 ["configurations","inputs"],
 "all configurations and data sources; azimuth, uniform/variable resolution, topography, several blocks",
 "Creation tests read the HDF5 datasets directly and query tests use pre-made files: no test crosses the writer/reader boundary.",
 [C+"core/model.py",C+"io/hdf5.py",S+"Model.cc",S+"Block.cc",S+"ModelInfo.cc"],
 [("writer's logical-to-physical mapping","core/model.py generate_points"),("reader's physical-to-logical mapping","Model.cc _toModelXYZ")],None,["Query values at nodes"])
p("C18","Python query interface equals the native one and raises on failure",
 "For any array of points (any size, memory layout or numeric type) the Python query and elevation calls return, row by row, what the native library returns for that point, with per-point OK/WARNING codes; wrong shapes are refused, and a read failure raises an exception and leaves the object usable. Calls on an object that is not open, loaded or initialized, and model queries outside of the model, raise an exception. Arrays returned or passed earlier never change. Model attributes and model information read through Python equal those stored.",
 ["inputs","histories","fault_sequences"],
 "all arrays, layouts and types, histories of calls on one object, read faults during any call",
 "Tests pass one C-contiguous float64 array per call on good disks.",
 ["modulesrc/Query_wrap.cc","modulesrc/Model_wrap.cc","modulesrc/ModelInfo_wrap.cc","modulesrc/ErrorHandler_wrap.cc"],
 [("per-point loop over native calls","modulesrc/Query_wrap.cc"),("shape checks","modulesrc/*_wrap.cc")],None,["returned arrays / exceptions"])
p("C19","Values from EarthVision programs reach their nodes, or creation fails",
 "Creating or updating a model from the EarthVision data source stores at every node the values the rules function computes from what ev_label returned for that node and its depth below the ground surface, with the fault-block and zone ids, and at every surface point the elevation ev_fp returned for it, whatever the domain, blocks, resolutions and batch size. If an external program is missing, fails, is killed, or leaves output that is missing, stale, has too few or too many rows or an unreadable row, creation fails with an exception and stores nothing for that batch. Leftover files of an earlier failed run never leak into the results of a later run, and a successful run leaves no points or values files in the EarthVision model directory.",
 ["fault_sequences","crash_points","histories"],
 "every external program invocation failing in each way, in every batch; stale files from earlier attempts; all geometries and batch sizes",
 "The EarthVision data source has no test at all.",
 [C+"data_srcs/earthvision/datasrc.py",C+"data_srcs/earthvision/api.py"],
 [("subprocess.run(check=True)","earthvision/api.py"),("temporary points/values files","earthvision/datasrc.py")],None,["stored datasets","model_dir contents"])
p("C20","CSV data source places every row at its grid node",
 "Creating a model from a CSV file stores the selected columns of each row at the node of each block at the row's location (the closest node, when the row is within half a grid cell of it; of several rows the closest wins), whatever the order of the rows, the column mapping, the CRS of the file and the kind of grid (uniform or variable spacing); rows outside a block are ignored and nodes without a row hold NODATA. A file that is missing, unreadable or in which rows lack columns or hold unreadable numbers makes creation fail, and batches are refused. The history line carries the current date and nothing else depends on the clock.",
 ["inputs","fault_sequences"],
 "all row orders, grids (uniform and variable), column mappings, missing rows, read faults, clock values",
 "The CSV data source has no test at all.",
 [C+"data_srcs/csv/datasrc.py"],
 [("node index from coordinates","csv/datasrc.py get_values")],None,["stored datasets","history attribute"])
p("C21","Coordinate conversion and CRS unit names are right for every CRS",
 "Transforming a point to a CRS and back returns the point, and the reported axis units are those of the CRS definition.",
 ["inputs"],"all CRS strings and points","Tests sample a few CRSs.",[U+"CRSTransformer.cc"],[("PROJ calls","CRSTransformer.cc")])
p("C22","Unit scale conversion in model creation is right for every unit string",
 "Converting lengths and other units named in creation configurations gives the scale factor to SI, and unknown units are refused.",
 ["inputs"],"all unit strings","Tests sample a few strings.",[C+"utils/units.py"],[("unit table","utils/units.py")])
p("C23","EMC models become georeferenced models with every value at its node",
 "Converting an IRIS EMC NetCDF file (longitude, latitude and depth ascending, depth from 0) stores each variable's value at the node of its longitude, latitude and depth, and NODATA where the file has none, for uniform and variable depths and any batch size. The model is georeferenced with longitude along x and latitude along y, so queries at the latitude, longitude and elevation of nodes of the file give the file's values. Title, authors and the other metadata come from the attributes of the file, absent attributes leave the model usable, and the history gets one line with the current date. If the file is missing, damaged, unreadable, lacks its extent or has unknown units, creation fails with an exception and stores nothing for that step.",
 ["inputs","fault_sequences","histories"],
 "all grids and batch sizes, missing values, sets of attributes, read faults and damaged files, clock values",
 "The EMC data source has no test at all.",
 [C+"data_srcs/iris_emc/datasrc.py"],
 [("values and metadata from the file","iris_emc/datasrc.py")],None,["stored datasets","attributes","query results"])
p("C24","Station profiles hold the models' values for every station or the run fails",
 "For any CSV file of stations (latitude, longitude), list of models, maximum depth and resolution, the vertical-profiles application for Python writes one file per station inside the models, with the elevation, depth and requested values at depths 0, dz, 2dz, ... below the top surface, as the library returns them there, in the chosen format, and none for stations outside. It succeeds only if all files were written completely; damaged station files and any read or write error end it with an error, and a rerun after a failure or crash gives the complete output.",
 ["inputs","fault_sequences","crash_points"],
 "all station files (column orders, number formats, missing fields), models, depths, resolutions and formats; every read, write, close, mkdir that can fail; crash at any operation",
 "The application has no test at all.",
 ["examples/python-api/station_profiles.py","modulesrc/Query_wrap.cc"],
 [("profile of points","station_profiles.py _query"),("output files","station_profiles.py _write_csv/_write_txt")],None,["exit status / exception","output files"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
