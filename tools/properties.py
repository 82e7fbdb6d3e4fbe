import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":["fv3gfs/util/"+f for f in files],"mechanism":[{"name":n,"where":"fv3gfs/util/"+w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":"fv3gfs/util/"+w} for n,m,w in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    P.append(d)
PA="partitioner.py";CO="communicator.py";QU="quantity.py";BU="_boundary_utils.py"
p("C01","Domain decomposition is an exact partition",
 "For every layout and every evenly divisible tile, the non-overlapping subtile slices of all ranks cover every point of the tile (or cube) exactly once and the overlapping slices share exactly the interface points between neighbouring ranks. The per-rank extent and the full extent derived from each other are exact inverses and agree with the slices. Tile index and tile root of a rank follow the row-major, tile-contiguous rank order, and inconsistent inputs are rejected.",
 ["configurations","inputs"],"all layouts (rectangular too), cells per rank, dimension orders, staggered, vertical and unrelated dimensions, overlap modes, ranks",
 "The tests fix a handful of layouts and sizes in tables; exactness of the partition is a statement over all of them.",
 [PA,"utils.py"],[("subtile_slice","partitioner.py: subtile_slice, _index_generator"),("extents","partitioner.py: tile_extent_from_rank_metadata, rank_extent_from_tile_metadata"),("tile index","partitioner.py: get_tile_index, CubedSpherePartitioner.tile_root_rank")],["TilePartitioner.subtile_slice","CubedSpherePartitioner.subtile_slice","global_extent","subtile_extent"])
p("C02","Rank neighbours are the geometric neighbours on the cube",
 "For every square layout, every rank and each of its eight directions, the reported neighbouring rank and relative rotation are those of a six-faced cube glued in the documented tile arrangement, with no neighbour exactly at the tile corners. The answer does not depend on earlier queries or on what callers did with earlier answers.",
 ["configurations","histories"],"all square layouts, ranks, boundary types and histories of lookups, including callers that modify returned boundaries",
 "Tests list a few ranks of the 1x1, 2x2 and 3x3 layouts by hand, each on a fresh object.",
 [PA,"boundary.py"],[("edges and corners","partitioner.py: CubedSpherePartitioner._left_edge and the seven siblings"),("cache","partitioner.py: _cached_boundary")],["CubedSpherePartitioner.boundary"],
 [("boundary cache","memoised boundaries shared by all lookups","partitioner.py: _cached_boundary")])
p("C03","Tile-local neighbours form a doubly periodic torus",
 "For every rectangular layout, the tile partitioner's neighbour in each of the eight directions is the rank reached on the doubly periodic grid of ranks, without rotation, and the tile-edge predicates hold exactly for ranks on that edge; flipping the tile left to right, and turning a square one clockwise, moves each rank to where its subtile moves. Neighbour relations are mutually inverse and independent of earlier queries.",
 ["configurations","histories"],"all layouts including 1xN and rectangular ones, all ranks and boundary types, lookup histories",
 "Tests list a few layouts by hand; rectangular corner wrap-around is sampled at single points.",
 [PA],[("tile edges","partitioner.py: TilePartitioner._left_edge and siblings, _get_corner"),("predicates","partitioner.py: on_tile_left and siblings")],["TilePartitioner.boundary","on_tile_top/bottom/left/right","rotate_rank","fliplr_rank"])
p("C04","A scalar halo update delivers each halo point its owner's value",
 "After a halo update of width n, every halo point within n points of a rank's compute domain, across edges and existing corners, holds the value the owning rank has for that point of the sphere, in the receiver's orientation. The compute domain, wider halos, array padding and non-existent tile corners keep their bits. This holds on every repeated update, for any width up to the halo and to the rank's cell count.",
 ["configurations","inputs","histories"],"layouts, cells per rank, halo widths, cell-centred or fully staggered points, dimension orders, extra dimensions, dtypes, paddings and memory layouts, repeated updates",
 "Tests use constants per rank or a few shapes with a dummy communicator, so orientation within a message and most layouts are not observed.",
 [CO,BU,"boundary.py","rotate.py",PA],[("send/recv slices","_boundary_utils.py: get_boundary_slice"),("rotation","rotate.py: rotate_scalar_data"),("exchange","communicator.py: _Isend_halos, _Irecv_halos")],["CubedSphereCommunicator.halo_update"])
p("C05","A vector halo update delivers rotated components",
 "After a vector halo update of width n, every existing halo point holds the owner's vector expressed in the receiver's (continued) axes, with correct component swap and sign, for unstaggered, corner-staggered and both edge-staggered component placements. All other points of both components keep their bits.",
 ["configurations","inputs","histories"],"layouts, cells, widths, staggerings, dimension orders, extra dims, signed dtypes, paddings, memory layouts, repeated updates",
 "Tests set constant unit vectors per face; positions within a message and mixed signs of varying fields are not distinguishable there.",
 [CO,"rotate.py",BU],[("vector rotation","rotate.py: rotate_vector_data"),("exchange","communicator.py: _Isend_vector_halos")],["CubedSphereCommunicator.vector_halo_update"])
p("C06","Interface synchronisation makes shared edges agree",
 "After synchronising an edge-staggered vector, every rank's north and east edge values equal, up to the rotation between tiles, the south or west edge values of the rank sharing that edge. Every other point of both components keeps its bits, for any dimension order and any non-horizontal dimensions.",
 ["configurations","inputs"],"layouts, cells, dimension orders, extra dimensions, dtypes, paddings, memory layouts",
 "Tests use one dimension order and constant data per rank; reversals along an edge and along extra dimensions are invisible with constants.",
 [CO,QU,"rotate.py"],[("shared boundary","communicator.py: _Isend_vector_shared_boundary, _Irecv_vector_shared_boundary")],["CubedSphereCommunicator.synchronize_vector_interfaces"])
p("C07","Exchanges are correct under every schedule and when overlapped",
 "Whatever the interleaving of ranks, the buffering MPI chooses, and the number of exchanges in flight, a program in which all ranks start the same exchanges in the same order terminates with every exchange delivering exactly its own data. No message is left over, and starting, overlapping or finishing one exchange never changes the result of another, including scatters and gathers performed in between.",
 ["schedules","histories","programs"],"rank interleavings, eager/late/rendezvous sends, histories of scalar, vector and interface exchanges with permuted completion, collectives in between",
 "Tests run ranks one after the other with an always-eager dummy communicator and at most one or two exchanges in flight.",
 [CO,"buffer.py"],[("tags","communicator.py: _get_halo_tag"),("requests","communicator.py: HaloUpdateRequest.wait"),("buffers","buffer.py: send_buffer, recv_buffer")],["start_halo_update(...).wait()","start_vector_halo_update","start_synchronize_vector_interfaces"],
 [("last halo tag","per-communicator tag counter that separates exchanges","communicator.py: _last_halo_tag")])
p("C08","Invalid exchanges are rejected without damage",
 "A halo update of zero points, one wider than the allocated halo, or an interface synchronisation of fields not on the required grid is rejected with the documented exception type on every rank. No data of any quantity changes, no message is left behind, and later valid exchanges over the same ranks still deliver correct data.",
 ["fault_sequences","histories","inputs"],"sequences mixing rejected and valid exchanges over layouts, staggerings and widths",
 "Tests check single rejections; none continues using the communicator afterwards.",
 [CO,BU],[("validation","communicator.py: start_halo_update, start_synchronize_vector_interfaces, on_c_grid"),("bounds","_boundary_utils.py: get_boundary_slice")],["ValueError","OutOfBoundsError"])
p("C09","Scatter gives each rank exactly its part of the global array",
 "After a scatter from the tile root or the cube root, each rank's compute domain holds exactly its overlapping part of the root's compute domain, with the root's dtype, units and dimensions. Halo points of a pre-allocated destination and the root's own data keep their bits, whatever the memory layout and halo of either side and however often scatters are repeated.",
 ["configurations","inputs","histories","schedules"],"tile and cube communicators, layouts incl. rectangular, staggering, dim orders, dtypes, origins/padding on both sides, preallocated or not, repeated operations",
 "Tests use a few layouts and shapes; halos on both sides, layouts in memory and buffer reuse are barely varied.",
 [CO,PA,"buffer.py"],[("scatter","communicator.py: Communicator.scatter, _get_scatter_recv_quantity"),("slices","partitioner.py: subtile_slice")],["TileCommunicator.scatter","CubedSphereCommunicator.scatter"])
p("C10","Gather reassembles the global array and inverts scatter",
 "After a gather, the root's compute domain holds at every global point the value of a rank owning it, with correct metadata, only the root receives a result, and pre-allocated halos keep their bits. Gathering what was scattered restores the original array bit for bit, and sources are not modified, however often operations repeat.",
 ["configurations","inputs","histories","schedules"],"as for scatter, plus mixed histories of gathers and scatters that reuse pooled buffers",
 "Tests cover a few shapes and single round trips.",
 [CO,PA,"buffer.py"],[("gather","communicator.py: Communicator.gather, _get_gather_recv_quantity")],["TileCommunicator.gather","CubedSphereCommunicator.gather"])
p("C11","State scatter and gather move every variable and the time",
 "Scattering or gathering a state dictionary delivers every variable present on the root (or on the ranks) to the entry of the same name, with the root's time, writes pre-allocated quantities in place and leaves other entries of the receiving dictionary alone. The outcome does not depend on the insertion order of any dictionary, and a root that scatters nothing is told so.",
 ["inputs","configurations","histories"],"sets of variables of mixed staggering and dtype, with and without time, preallocated subsets, differing dictionary orders per rank, repeated calls",
 "Tests use one or two variables in one order.",
 [CO],[("state transfer","communicator.py: scatter_state, gather_state")],["scatter_state","gather_state"])
p("C12","Communication buffers are exclusive, exact and reused safely",
 "Every buffer handed out has the requested shape and dtype, is contiguous and shares no memory with any other buffer still in use, for any nesting and any history of reuse or exceptions. A send buffer shows exactly the array's contents and sending never alters the array; a receive buffer's contents arrive exactly in the array on exit, an already contiguous array is passed through, and packing and unpacking are timed.",
 ["histories","inputs"],"histories of nested acquire/release over shapes, dtypes, memory layouts and allocators, with exceptions inside",
 "Tests check one buffer at a time with a few arrays.",
 ["buffer.py","utils.py"],[("pool","buffer.py: array_buffer"),("pack/unpack","buffer.py: send_buffer, recv_buffer; utils.py: assign_array")],["array_buffer","send_buffer","recv_buffer"],
 [("buffer pool","free buffers keyed by allocator, shape and dtype","buffer.py: BUFFER_CACHE")])
p("C13","View indexing addresses the compute domain",
 "Indexing a quantity's view with integers and slices addresses the same points as shifting the indices by the origin in the underlying array, with omitted bounds meaning the compute domain; reads alias the data and writes change exactly the addressed points. Too many indices are rejected, and negative indices address the halo before the origin.",
 ["inputs"],"arrays of 0-4 dims, origins, extents, paddings, index tuples of ints and slices with steps, reads and writes of scalars and arrays",
 "Tests sample specific index tuples on one- and two-dimensional arrays.",
 [QU,BU],[("index shift","quantity.py: BoundedArrayView._get_compute_index, shift_slice"),("defaults","_boundary_utils.py: bound_default_slice")],["Quantity.view"])
p("C14","Corner, interior and named views are relative to their anchor",
 "Indices on a corner view are offsets from that corner of the compute domain along the dimensions the corner fixes and from the origin along all others; the interior view offsets starts and integers from the first and ends from the last compute point. Named selection equals positional indexing for every dimension order, and writes through these views change exactly the addressed points.",
 ["inputs"],"dimension names, orders and counts, origins, extents, four corners and interior, ints and slices including halo offsets, reads and writes",
 "Tests tabulate a few corners and offsets on small arrays.",
 [QU,BU],[("corner shift","_boundary_utils.py: _shift_boundary_slice, _get_offset"),("sel","quantity.py: Quantity.sel, BoundaryArrayView.sel")],["view.northwest/northeast/southwest/southeast/interior","sel"])
p("C15","Transposing a quantity preserves meaning and shares data",
 "Transposing to any order of the dimension names, or of name groups, yields a quantity whose every named point has the same value, with origin, extent and dims permuted alike, units kept, and memory shared with the original. Requests naming missing, ambiguous or insufficient dimensions are rejected.",
 ["inputs"],"permutations of up to 5 dims, dimension groups, origins, extents, paddings, invalid targets, compositions of transposes",
 "Tests tabulate a few permutations.",
 [QU],[("transpose","quantity.py: Quantity.transpose, _collapse_dims, transpose_sequence")],["Quantity.transpose"])
p("C16","Quantity construction keeps data and validates metadata",
 "A constructed quantity exposes exactly the given array and the given (or defaulted) origin, extent, dims and units; inconsistent metadata lengths are rejected. Its labelled-array form contains exactly the compute domain with dims and units, converting back gives an equal quantity, the read-only values accessor never changes the quantity itself, and data-set export contains each variable and the time.",
 ["inputs"],"arrays, lists and scalars of 0-4 dims, origins, extents, dims, units, attribute sets, sequences of accessor uses",
 "Tests use a few fixed arrays.",
 [QU,"_xarray.py"],[("constructor","quantity.py: Quantity.__init__, _validate_quantity_property_lengths"),("conversion","quantity.py: from_data_array, data_array, values; _xarray.py: to_dataset")],["Quantity","Quantity.from_data_array","data_array","to_dataset"])
p("C17","A Zarr store holds exactly the appended global history",
 "After any number of appends by all ranks, each stored variable equals the global field at every time, tile and point, with its dtype, dimension names and units, and the stored time decodes to the appended times. Storing never modifies the state and ignores halos, for every layout, staggering and dimension order.",
 ["configurations","histories","inputs"],"layouts, staggering, dims, dtypes, halos, numbers of snapshots, calendars, single-process and multi-rank use",
 "Tests store a few shapes, mostly one rank or one time.",
 ["zarr_monitor.py",PA],[("append","zarr_monitor.py: _ZarrVariableWriter.append, array_chunks"),("time","zarr_monitor.py: _ZarrTimeWriter")],["ZarrMonitor.store"])
p("C18","Concurrent Zarr writers never lose or mix data",
 "Whatever the interleaving of the ranks' store operations allowed by their communication, no rank's write is lost or overwritten by another's, because ranks write disjoint chunks after the root has made room, and the result equals the sequential one. No rank reads or writes an array before it exists with the needed size.",
 ["schedules","histories"],"interleavings of all store reads/writes and communications of up to 24 ranks over several snapshots",
 "Tests run ranks sequentially in one process; a read-modify-write race or a missing synchronisation cannot show.",
 ["zarr_monitor.py"],[("chunks","zarr_monitor.py: array_chunks"),("synchronisation","zarr_monitor.py: sync_array, barrier")],["zarr store contents"])
p("C19","Inconsistent snapshots are rejected by the Zarr monitor",
 "A state whose set of names, whose calendar or whose variables' dimensions, units or lengths differ from the earlier snapshots is rejected with an error, and everything stored before remains readable and unchanged. Consistent states are never rejected.",
 ["histories","fault_sequences"],"histories of consistent and inconsistent snapshots: names added, removed, renamed, units, dims, lengths and calendars changed",
 "Tests check single rejections on the second snapshot.",
 ["zarr_monitor.py"],[("names","zarr_monitor.py: _check_writers"),("attrs","zarr_monitor.py: _ensure_compatible_attrs"),("calendar","zarr_monitor.py: _encode_time")],["ZarrMonitor.store raises ValueError"])
p("C20","Writing and reading a state is a round trip",
 "Reading back a written state yields every variable with the same name, dims, units, dtype and bit-identical compute-domain values, and the same time in the same calendar, on local and remote-style file systems. A state without time is rejected when written without touching the file, and a file whose time is not encoded as a date or is not a single scalar is rejected when read.",
 ["inputs","histories"],"states with arbitrary names, units, dims, NetCDF dtypes (float64, float32, int32, int16, int8, bool), values incl. NaN and infinities, calendars, overwriting files",
 "Tests round-trip one or two fixed states.",
 ["io.py","filesystem.py","_xarray.py"],[("write","io.py: write_state"),("read","io.py: read_state, _extract_time")],["write_state","read_state"])
p("C21","Opening restart files yields the model state on every rank",
 "Opening a set of per-tile restart files gives every rank exactly its part of every variable that has restart metadata or units, under its standard name with the documented dims and units, and the time of the coupler file in its calendar. A missing required file is an error. Name filters, labels, optional files, extra tracer metadata and pre-allocated destination states change only what they say.",
 ["inputs","configurations","schedules"],"generated six-tile restart directories: subsets of variables and files, layouts, labels, filters, tracer properties, destination states, calendars",
 "Tests load one small fixed data set of one resolution.",
 ["_legacy_restart.py","_properties.py","io.py",CO],[("files","_legacy_restart.py: restart_filenames, prepend_label"),("metadata","_legacy_restart.py: _apply_restart_metadata, map_keys")],["open_restart"])
p("C22","Model times are parsed and converted exactly",
 "The date in a coupler restart file is returned with exactly the recorded fields in the recorded calendar, for all calendars and trailing text. Converting a 64-bit numpy date gives exactly the same calendar date and time of day, to the microsecond, for every supported year and independent of the host's time zone.",
 ["inputs"],"all four calendars, valid dates, file formatting variants, numpy date resolutions, years 1-9999",
 "Tests cover one file per calendar and a few dates.",
 ["io.py","time.py"],[("coupler","io.py: get_current_date_from_coupler_res"),("datetime64","time.py: datetime64_to_datetime")],["get_current_date_from_coupler_res","datetime64_to_datetime"])
p("C23","Nudging relaxes exactly the chosen variables",
 "Nudging tendencies are (reference minus state) over the timescale for exactly the variables that have a timescale, with units per second; applying nudging adds tendency times timestep to those compute domains in place and returns the tendencies. Nothing else in the state, its halos or the reference changes, for arbitrary halos on either side.",
 ["inputs","histories"],"variables, dims, halos and origins of state and reference, timescales, timesteps, subsets, repeated application",
 "Tests use single arrays without halos.",
 ["nudging.py"],[("tendency","nudging.py: get_nudging_tendencies, _apply_tendencies")],["apply_nudging","get_nudging_tendencies"])
p("C24","Corner filling continues data around tile corners",
 "Filling corners for stencils along one direction sets each halo-corner point at a tile corner to the value of the halo point that the neighbouring tile would place there, skipping the shared edge for staggered dims, at exactly the tile corners the rank touches. All other points and all ranks away from tile corners keep their bits; wrong dimension orders or directions are rejected.",
 ["inputs","configurations"],"layouts, ranks, both directions, widths, staggering, extra dims, origins and padding",
 "Tests tabulate one small array per case.",
 ["_corners.py",QU],[("fill","_corners.py: fill_scalar_corners, _shared_edge_points")],["fill_scalar_corners"])
p("C25","Timers account for every completed interval once",
 "For every sequence of starts, stops, clock contexts (also left by exceptions), resets, enables and disables, hit counts equal the number of completed intervals per name while enabled and accumulated times lie between the bracketing clock readings. Illegal transitions are rejected without changing the totals, returned totals are snapshots, reading them warns exactly while a clock is running, and a null timer never records anything.",
 ["histories","fault_sequences"],"operation sequences over several names with nesting and exceptions",
 "Tests run a few fixed sequences, none with an exception in a clock.",
 ["_timing.py"],[("timer","_timing.py: Timer, NullTimer")],["Timer.times","Timer.hits"])
p("C26","Stream capture returns exactly the bytes written and restores",
 "Everything written to the stream's file descriptor inside the context, and nothing else, is returned byte for byte, and output after the context goes to the original destination. The stream is restored and no file descriptor is leaked even when the body raises, for any nesting and repetition.",
 ["histories","inputs","fault_sequences"],"nested and repeated captures with writes by buffered stream, raw descriptor and child-like writers, exceptions in the body",
 "Tests capture a single fixed string.",
 ["_capture_stream.py"],[("capture","_capture_stream.py: capture_stream")],["capture_stream"])
p("C27","Grid sizers and factories allocate consistent quantities",
 "For every tile size, layout and halo, quantities made for a set of dims have the subtile's compute extent, the halo before the origin and at least as many points after the extent horizontally, equal array shapes for staggered and unstaggered variants, and the requested dtype, units and fill value. Sizers built from a namelist and from explicit parameters agree with each other and with the partitioner, also one given by the caller, and leave what they are given unchanged.",
 ["inputs","configurations"],"tile sizes, layouts, ranks, vertical levels, halos, extra dims, dim lists, dtypes",
 "Tests tabulate a few namelists.",
 ["initialization/sizer.py","initialization/allocator.py"],[("sizes","initialization/sizer.py: SubtileGridSizer"),("allocation","initialization/allocator.py: QuantityFactory._allocate")],["SubtileGridSizer","QuantityFactory"])
p("C28","The dummy communicator agrees with MPI on rank-ordered programs",
 "For programs whose ranks are executed one after another and complete their receives in the order they were posted, each operation of the dummy communicator delivers the same data as MPI would, isolates the receiver from later changes by the sender, and keeps separate messages apart in order. When a rank asks for something not yet provided it fails rather than delivering stale or invented data.",
 ["programs","histories","fault_sequences"],"phase-ordered programs of sends, receives, broadcasts, scatters and gathers over several ranks and rounds",
 "Tests only use the dummy communicator to test other classes.",
 ["testing/dummy_comm.py"],[("buffers","testing/dummy_comm.py: DummyComm")],["fv3gfs.util.testing.DummyComm"])
p("C29","Rotations of scalar and vector data obey the rotation group",
 "Rotating gridded scalar or vector data by quarter turns agrees with rotating the grid points (and the vector components) about the tile centre, for any dimension order and any non-horizontal dims; rotations compose additively modulo four and the inverse restores the data bit for bit. Rotating data in place for a boundary does the same to the data of that boundary.",
 ["inputs"],"arrays of 1-4 dims in any dim order with x and y staggering, all integer rotation counts, signed dtypes",
 "Tests tabulate some rotations of small arrays.",
 ["rotate.py"],[("rotate","rotate.py: rotate_scalar_data, rotate_vector_data")],["rotate_scalar_data","rotate_vector_data"])
p("C30","Units comparison ignores only surrounding whitespace",
 "Two unit strings are considered equal exactly when they agree after removing leading and trailing whitespace, and the ensuring form raises the documented error exactly when they differ.",
 ["inputs"],"arbitrary unit strings and whitespace padding",
 "Tests do not cover it systematically.",
 ["units.py"],[("units","units.py: units_are_equal, ensure_equal_units")],["ensure_equal_units"])
p("C31","Model results do not depend on the domain decomposition",
 "A model program of halo updates, stencils, corner filling, vector exchanges, interface synchronisation, nudging and transpositions yields bit-identical global states, gathered, stored to Zarr or written to a file, for every layout of ranks. Changing the layout on the way by gathering, writing, reading and scattering the state changes nothing either.",
 ["programs","configurations","schedules"],"programs of up to six steps run with two or three layouts, memory layouts, blocking or asynchronous exchanges, redistributions and schedules",
 "Tests check single operations on single layouts; nothing composes the components.",
 ["communicator.py","partitioner.py","_corners.py","zarr_monitor.py","io.py",QU],[("exchange","communicator.py: CubedSphereCommunicator"),("decomposition","partitioner.py: CubedSpherePartitioner"),("state transfer","communicator.py: gather_state, scatter_state")],["CubedSphereCommunicator","fill_scalar_corners","apply_nudging","ZarrMonitor.store","write_state","read_state"])
p("C32","Quantities behave the same on every array library and storage",
 "A quantity whose data live in a device array or a gt4py storage behaves like one of numpy arrays. Its data, view and storage always show the same memory, the storage's default origin is the quantity's, its array type and backend survive transposition, scatter and gather, and any program of exchanges gives the same values. Asking for a storage where there is none, or giving both a storage and a backend, is rejected.",
 ["histories","configurations","programs"],"histories of writes through data, view and storage on six backends, scatters and gathers on a tile, and the model programs of C31 with every backend",
 "The tests for these backends are skipped where cupy and gt4py are missing.",
 [QU,"utils.py","communicator.py","initialization/allocator.py"],[("storage","quantity.py: Quantity.__init__, Quantity._initialize_storage"),("device arrays","utils.py: assign_array"),("backends","communicator.py: _get_gather_recv_quantity, _get_scatter_recv_quantity")],["Quantity.storage","Quantity.data","Quantity.np","QuantityFactory.from_backend"])
p("C33","Copies of quantities are faithful, deep copies are independent",
 "Deep copies and pickles of a quantity, its metadata or a state dictionary have the same values, metadata and time, share no memory with the original, and their views address their own data, so that writes to either side never show on the other. A shallow copy addresses the same memory as the original.",
 ["inputs","histories"],"quantities of any dims, memory layout and dtype, transposed or used before, followed by writes through data and views",
 "No test copies a quantity.",
 [QU],[("container","quantity.py: Quantity, BoundedArrayView")],["copy.deepcopy(quantity)","pickle.dumps(quantity)"])
p("C34","Boundary views are the two sides of an exchange",
 "For every boundary of every rank, on a doubly periodic tile and on the cubed sphere, copying what the facing boundary calls its send view, rotated as the boundary states, into this boundary's receive view gives every halo point of that width its owner's value and changes nothing else, in any order. Both views address the quantity's own memory; a width without room in the array raises the documented error.",
 ["inputs","histories","configurations"],"tori of any layout and staggering and cubes, dim orders, halos, memory layouts, dtypes, exchange orders and widths, repeated with other widths",
 "Tests look at single boundaries of small arrays; there is no communicator that exchanges halos on one tile.",
 ["boundary.py","_boundary_utils.py","partitioner.py"],[("views","boundary.py: SimpleBoundary._view"),("slices","_boundary_utils.py: get_boundary_slice"),("boundaries","partitioner.py: TilePartitioner.boundary, CubedSpherePartitioner.boundary")],["Boundary.send_view","Boundary.recv_view"])
p("C35","A crash or store failure never damages earlier Zarr snapshots",
 "Once every rank's call storing a snapshot to Zarr has returned, the snapshot's values, metadata and time stay readable and unchanged, whatever happens later: a crash of all ranks between any two accesses to the store, an error of the store on one rank while the others continue, or another monitor opening the same store without replacing it.",
 ["crash_points","fault_sequences","schedules","histories"],"every access to the store as a crash or fault point, over histories of snapshots, layouts and schedules, followed by another monitor on the same store",
 "Tests never interrupt a monitor.",
 ["zarr_monitor.py"],[("appending","zarr_monitor.py: _ZarrVariableWriter.append, _ZarrTimeWriter.append"),("creation","zarr_monitor.py: _init_zarr_root")],["ZarrMonitor.store"])
p("C36","Communicator timers record exchanges and disturb nothing",
 "The timer of a cubed-sphere communicator starts empty and enabled and accumulates, while it is on, times and hits of packing, unpacking, sending and receiving for every halo update, never more than the time that passed; no clock is left going between calls, also after rejected ones. While it is off nothing is recorded. Switching or resetting it at any time, on any rank, changes no exchange, and timers of different communicators are independent.",
 ["histories","schedules","fault_sequences"],"programs of exchanges, rejected calls and fresh communicators with timers read, reset and switched at any point, differently per rank",
 "Tests look at the timer after single updates.",
 ["communicator.py","_timing.py","buffer.py"],[("clocks","communicator.py: _Isend_halos, _Irecv_halos, _Isend, _Irecv"),("accumulation","_timing.py: Timer"),("buffers","buffer.py: recv_buffer")],["CubedSphereCommunicator.timer"])
p("C37","Only what uses an optional library needs it",
 "Where xarray, zarr or both are missing, the package imports, and every operation that does not read or write files, make labelled arrays or store to Zarr gives exactly what it gives with them. An operation that needs a missing library raises an import error that names it, and changes no existing file.",
 ["configurations","inputs","histories"],"sets of missing libraries, histories of operations of all parts of the package and their data",
 "The tests run with all libraries installed.",
 ["__init__.py","_optional_imports.py","_xarray.py","zarr_monitor.py"],[("stand-in","_optional_imports.py: RaiseWhenAccessed"),("guards","_xarray.py, zarr_monitor.py: import")],["import fv3gfs.util"])
p("C38","Ranks may be separate processes that share nothing but messages",
 "Halo updates, vector exchanges, interface synchronisation, scatters and gathers of fields and states, Zarr stores and loaded restarts give exactly the same results, without deadlock, when every rank is an operating system process of its own: sharing no memory with the others, with its own hash seed and so its own iteration order of sets, and whatever each process has done with the package by itself before.",
 ["configurations","schedules","histories","inputs"],"the programs and states of the properties on communication, run with one process per rank, hash seeds and earlier uses that differ between the processes, and schedules",
 "The tests run all ranks in one process, where sets have one order and module variables are shared.",
 ["communicator.py","zarr_monitor.py","_legacy_restart.py","partitioner.py","buffer.py"],[("metadata and names sent between ranks","communicator.py: bcast_metadata_list, scatter_state, gather_state"),("tags","communicator.py: _get_halo_tag"),("store sent between ranks","zarr_monitor.py: ZarrMonitor.__init__, _init_writers")],["CubedSphereCommunicator","TileCommunicator","ZarrMonitor","open_restart"])
p("C39","Repeated operations pile up neither memory nor open files",
 "Repeating operations with one partitioner any number of times keeps the memory that the package holds, the quantities, requests and other objects it keeps alive, and the open files bounded: nothing is retained per call. This holds for exchanges, scatters and gathers, states, Zarr stores, files, restarts, captures, timers, buffers, views, transpositions and lookups, with the same or freshly made quantities of the same kind, and for calls that are rejected or fail.",
 ["histories","fault_sequences","configurations"],"sets of operations, some of them failing, repeated some 200 times by one process or by all ranks together, with reused or fresh quantities and any schedule",
 "Tests call an operation once or twice; a model calls it for every time step.",
 ["communicator.py","buffer.py","_timing.py","zarr_monitor.py","_capture_stream.py","_legacy_restart.py","filesystem.py"],[("buffers","buffer.py: BUFFER_CACHE, array_buffer"),("requests","communicator.py: HaloUpdateRequest"),("timings","_timing.py: Timer"),("files","filesystem.py: open; _capture_stream.py: capture_stream")],["CubedSphereCommunicator","ZarrMonitor.store","open_restart","capture_stream","array_buffer","Timer"])
p("C40","Exchanges wait only for the ranks they involve",
 "Starting a halo update, vector halo update or interface synchronisation returns without any other rank having reached its own. A rank completes such an exchange, in either form, once the ranks it shares boundaries or corners with have started theirs, whatever the other ranks are doing. Scatters and gathers of fields and states on a tile's communicator involve only that tile's ranks. Everyone still receives the right values, and no message is left over.",
 ["schedules","configurations","inputs"],"all orders in which ranks may come to an exchange, with ranks held back for any time, layouts, kinds of exchange and message timings",
 "Tests let all ranks run through the same calls in step.",
 ["communicator.py","partitioner.py"],[("starts","communicator.py: start_halo_update, start_vector_halo_update, start_synchronize_vector_interfaces"),("completion","communicator.py: HaloUpdateRequest.wait"),("tile communicator","communicator.py: CubedSphereCommunicator.tile, _initialize_tile_communicator")],["CubedSphereCommunicator","TileCommunicator"])
p("C41","The settings of the process neither change results nor are changed",
 "Every operation gives the same results, writes the same files and rejects the same calls with the same errors under Python's -O and -OO, with debug logging of all modules, numpy raising floating point errors, other print options, other options of xarray, the garbage collector off or eager, other warning filters, locale and working directory. No operation, nor importing the package, changes such settings of the process, its random state, environment, signal handlers or streams, prints anything, leaves files in the working directory, or logs a record that cannot be formatted.",
 ["configurations","inputs","histories"],"combinations of settings of the process and histories of valid and invalid operations of all parts of the package",
 "The tests run with one setting of the process and do not look at it.",
 ["__init__.py","communicator.py","zarr_monitor.py","nudging.py","io.py","_xarray.py","_capture_stream.py"],[("logging","communicator.py, zarr_monitor.py: logger"),("descriptors","_capture_stream.py: capture_stream"),("validation","quantity.py, zarr_monitor.py")],["import fv3gfs.util"])
with open(__file__.rsplit("/", 2)[0] + "/properties.jsonl","w") as f:
    for d in P: 
        assert len(d["title"])<=80,d["title"]
        f.write(json.dumps(d)+"\n")
print(len(P))
