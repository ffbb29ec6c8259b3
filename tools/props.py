"""The table behind properties.jsonl and MANIFEST.json (tools/gen.py writes both)"""

I = ["inputs"]
IP = ["inputs", "programs"]
IC = ["inputs", "configurations"]
IH = ["inputs", "histories"]

S = "src/sqrid/"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism [(name, where)], technique, note
PROPS = [
    ("C01", "Bounded integers never leave their declared range",
     "A bounded integer only ever holds a value between its declared minimum and maximum, whatever safe operation produced it, and holds exactly the value it was created from. Creation from a raw value succeeds exactly for values in the range, stepping up or down succeeds exactly when the neighbouring value is in the range, and ordering, equality, conversion back and printing agree with the held value.",
     IC, "all bounds MIN<=MAX of the 11 bounded types and the 12 plain integers, all values, all public constructors and operations",
     "Tests instantiate a handful of bounds and values; the guarantee is over every const bound and every value, and over every program a safe client can write.",
     [S + "boundedint.rs"], [("checked constructors and private field", "boundedint.rs: boundedint_impl!"), ("checked inc/dec", "boundedint.rs: trait BoundedInt")],
     "abstract interpretation of MIR with symbolic bounds; compile-fail witnesses for the private field"),
    ("C02", "Positions only hold coordinates of their grid and keep what they were given",
     "A position can only be built for coordinates inside its grid, and holds exactly those coordinates. Every constructor and conversion accepts exactly the coordinates of the grid and rejects the others with an error; equality, ordering and the corner constructors agree with the coordinates.",
     IC, "all grid sizes, all coordinate values and source integer types",
     "Tests exercise a few sizes; the guarantee is over all const sizes and all coordinate values including the largest ones.",
     [S + "pos.rs", S + "postrait.rs"], [("checked constructors", "pos.rs: Pos::new, TryFrom impls"), ("tuple positions", "postrait.rs: PosT for tuples")],
     "abstract interpretation of MIR with symbolic grid size and coordinates"),
    ("C03", "The linear index of a position is a row-major bijection",
     "The linear index of a position is its row-major number, and building a position from an index is the exact inverse: every index below width*height gives the one position with that index and every other index is rejected. This holds for every grid size and does not overflow.",
     IC, "all grid sizes, positions and indices",
     "Tests enumerate a few small grids; wide grids (where 16-bit products overflow) and every index are out of their reach.",
     [S + "pos.rs", S + "postrait.rs"], [("to_usize / tryfrom_usize", "postrait.rs: PosT; pos.rs")],
     "abstract interpretation of MIR with polynomial value numbering over symbolic sizes"),
    ("C04", "Grids are memory safe: no cell access can fall outside the storage",
     "No safe use of a grid or boolean grid can read or write outside of its storage. A grid type whose declared storage size does not fit its positions can never be constructed: every way to create one is rejected at compile time.",
     ["inputs", "programs", "configurations"], "all client programs, all grid sizes, all declared storage sizes, all public constructors",
     "Whether an unchecked access is in bounds for all sizes, and whether all ill-sized programs fail to compile, cannot be sampled by running tests.",
     [S + "grid.rs", S + "gridbool.rs"], [("get_unchecked", "grid.rs: Grid::get, get_mut"), ("compile-time size assertion", "grid.rs, gridbool.rs: _ASSERTS")],
     "bounds proof of every unchecked access by abstract interpretation; unsafe-code lint inventory; compile-fail witnesses per constructor"),
    ("C05", "All ways to access a grid agree on which cell a position designates",
     "A position designates exactly one cell of a grid, the one with its row-major number, and it is the same cell through reads, writes, indexing, lines, the underlying array, iteration and iteration with positions. Writing a cell changes that cell only, and a sequence of assignments leaves each cell with the last value assigned to it.",
     IC, "all grid sizes, element types, contents and positions",
     "Agreement between a dozen access paths for every size and position is a universally quantified relation; tests compare a few cells of small grids.",
     [S + "grid.rs"], [("get/index/line/iter/iter_pos/extend", "grid.rs")],
     "abstract interpretation of MIR: every accessor yields the same symbolic place of the grid"),
    ("C06", "Directions form a consistent cyclic group of eighth turns",
     "Opposite, rotation, addition and subtraction of directions agree with each other and with the clockwise order for every pair of directions. The enumerations of directions list every direction exactly once in clockwise order starting from north, with or without diagonals, and then end.",
     I, "all pairs of directions, both diagonal modes, all states of the enumeration",
     "Tests touch some pairs and one full enumeration; the algebraic laws relate all pairs and all iterator states.",
     [S + "dir.rs"], [("rotation and tables", "dir.rs")],
     "abstract interpretation of MIR over all enum variants"),
    ("C07", "Names, characters and unit vectors of directions are mutually consistent",
     "Each direction converts to its unit vector in every integer type, and exactly the eight unit vectors and the documented characters convert back, to that same direction. Every other vector, character or string is rejected with an error, and all the name tables agree with each other.",
     I, "all directions, all integer pairs, all characters and strings",
     "Rejection of every other vector, character or string quantifies over unbounded input sets.",
     [S + "dir.rs"], [("conversion tables", "dir.rs: TryFrom impls and name tables")],
     "abstract interpretation of MIR with unknown vector, character and string"),
    ("C08", "Moving a position follows the direction exactly and fails exactly off-grid",
     "Moving a position by a direction changes the coordinates by exactly that direction's unit vector, and fails exactly when the result is not in the grid (or not representable for tuples). Moving back by the opposite direction returns to the start; all the ways to write a move agree.",
     IC, "all grid sizes, positions and directions",
     "Boundary behaviour on every side and corner of every grid size cannot be enumerated by tests.",
     [S + "posdir.rs", S + "dir.rs"], [("move operators", "posdir.rs, dir.rs: Add impls")],
     "abstract interpretation of MIR with symbolic size and coordinates"),
    ("C09", "The direction between two positions points from one to the other",
     "The direction from one position to another does not exist exactly when they are equal. With diagonals, its components are the signs of the coordinate differences; without, it is a cardinal direction that decreases the distance to the target.",
     IC, "all grid sizes and pairs of positions",
     "Tests check a few pairs; the claim is over all pairs of all sizes.",
     [S + "posdir.rs", S + "pos.rs"], [("direction between positions", "posdir.rs")],
     "abstract interpretation of MIR with two symbolic positions"),
    ("C10", "Mirrors, quarter turns, distances and border tests match the geometry",
     "Mirroring and turning a position gives the one position the geometry requires, so that mirrors are involutions and the two quarter turns undo each other. The manhattan distance is the sum of the absolute coordinate differences and the corner, side and inside tests agree with the coordinates.",
     IC, "all grid sizes and positions",
     "The laws quantify over all sizes including degenerate one-wide grids; tests sample.",
     [S + "pos.rs", S + "postrait.rs"], [("flip/rotate/manhattan/is_corner/is_side", "pos.rs, postrait.rs")],
     "abstract interpretation of MIR with symbolic size and coordinates"),
    ("C11", "Iterators over positions and bounded integers enumerate each value exactly once",
     "Iterating over all positions, over coordinates or over bounded integers visits every value exactly once in order, from both ends where that is offered, in any interleaving of both, and then ends for good. Stepping to the next or previous position agrees with that order and fails exactly at the ends.",
     ["inputs", "configurations", "histories"], "all grid sizes and bounds, all interleavings of calls from both ends",
     "The induction over arbitrarily long call sequences on arbitrary sizes is out of reach for tests.",
     [S + "postrait.rs", S + "boundedint.rs", S + "pos.rs"], [("PosTIter, BoundedIntIterator", "postrait.rs, boundedint.rs")],
     "abstract interpretation of MIR: start state and inductive step from a symbolic iterator state"),
    ("C12", "Range iterators cover their rectangle, column or line; bounding boxes are tight",
     "Iterating over the rectangle between two corners, a column or a line returns exactly the positions in it, each once, in reading order. The bounding box of a sequence of positions is the componentwise minimum and maximum, and an error exactly for an empty sequence.",
     ["inputs", "configurations", "histories"], "all grid sizes, rectangles, columns, lines; sequences of positions",
     "All rectangles of all grid sizes, including those touching the last column or line, cannot be sampled.",
     [S + "postrait.rs", S + "pos.rs"], [("PosTIterRange, PosTIterInX/Y, tlbr_of", "postrait.rs")],
     "abstract interpretation of MIR: start state and inductive step; bounding box of up to 4 unknown positions"),
    ("C13", "Flipping and rotating a grid moves every cell to its mirrored place",
     "After flipping or rotating a grid, the cell at the mirrored or turned image of a position holds what the position held before, for every position. No value is lost, duplicated or left behind, in even, odd and one-cell grids.",
     IC, "all grid sizes, contents and positions",
     "An index slip can affect only the middle line or inner ring of particular sizes; the property is over every size.",
     [S + "grid.rs"], [("flip_h, flip_v, rotate_cw, rotate_cc", "grid.rs")],
     "loop-effect analysis: each iteration's symbolic permutation of cells, disjointness and coverage of the iterations by linear arithmetic"),
    ("C14", "Boolean grids store one independent bit per position",
     "Setting, clearing or assigning the bit of one position of a boolean grid is visible at exactly that position through every accessor and leaves every other position unchanged. This holds for every grid size, position and content.",
     IH, "all grid sizes, positions, contents; any pair of positions",
     "Aliasing of two positions' bits depends on the pair and the size; tests read a few pairs back.",
     [S + "gridbool.rs"], [("byte_bit and masks", "gridbool.rs: set_t, set_f, set, get")],
     "abstract interpretation of MIR with a single-bit mask domain over symbolic sizes"),
    ("C15", "Equal boolean grids compare equal: padding bits are always clear",
     "Two boolean grids with the same value at every position compare equal and have the same underlying words, however they were built. The bits of the storage that belong to no position are never set by any safe constructor or position-based operation.",
     IH, "all grid sizes and all construction histories through the safe position-based interface",
     "Padding exists only for particular sizes and surfaces only when grids from different histories are compared.",
     [S + "gridbool.rs"], [("padding mask", "gridbool.rs: repeat; byte_bit")],
     "abstract interpretation of MIR: word values of constructors per residue of the size; writes touch position bits only"),
    ("C16", "Bulk operations on boolean grids agree with position-wise reads",
     "Iterating, collecting, bulk-setting, flipping and rotating a boolean grid agree with reading it position by position. Iteration lists every position in order with its value, the filtered iterations list exactly the positions with that value, and flips and turns move every bit to its mirrored or turned place.",
     IC, "all grid sizes, contents and positions",
     "Tests use small grids; inner rings, padding and word boundaries of all sizes are not covered.",
     [S + "gridbool.rs"], [("iter, iter_pos, iter_t/f, flips, rotations", "gridbool.rs")],
     "abstract interpretation and loop-effect analysis of MIR"),
    ("C17", "All position maps and sets behave like an ideal map and an ideal set",
     "Each storage offered to the algorithms for position-indexed values returns the last value set for a position, the default before that, and never confuses two positions. Each position set contains exactly the positions inserted and not removed, and all the storages agree.",
     IH, "all grid sizes, positions, values and operation histories",
     "Equivalence between storages quantifies over all histories; tests run single operations.",
     [S + "mappos.rs", S + "setpos.rs"], [("MapPos, SetPos impls", "mappos.rs, setpos.rs")],
     "abstract interpretation of MIR over symbolic stores, one operation from an arbitrary state"),
    ("C18", "Breadth-first search visits every reachable position once, in distance order",
     "Breadth-first traversal yields exactly the positions other than the origin that the movement function makes reachable from it, each once, front by front in increasing distance starting at one, each with a direction that leads one step back. The search finds a destination (other than the origin) exactly when one is reachable, it is one of the nearest, and the path is a shortest one that starts at the origin and ends there.",
     IH, "all grids, movement functions, origins and goals",
     "Reachability and order over every movement function are universally quantified; tests run a few mazes.",
     [S + "bf.rs"], [("BfIterator::next, search_mapmov", "bf.rs")],
     "abstract interpretation of MIR: one expansion of an arbitrary state against the rules of breadth-first search; scripted iterations of the search; reconstruction of the path"),
    ("C19", "Uniform-cost search expands in cost order and returns a cheapest path",
     "Uniform-cost search returns a path that starts at the origin, follows allowed moves and ends at the destination, of minimal total cost, exactly when one exists. Positions are expanded in non-decreasing cost, costs accumulate without wrapping, and an improved cost always updates both the frontier and the recorded move.",
     IH, "all grids, cost functions, origins and destinations",
     "Optimality depends on re-openings and stale frontier entries that only particular cost functions cause.",
     [S + "ucs.rs"], [("UcsIterator::next, search_mapmov", "ucs.rs")],
     "abstract interpretation of MIR: one call of the iterator in an arbitrary state against the relaxation rules (outdated entries, costs, queue entries, directions back); scripted iterations of the search; reconstruction of the path"),
    ("C20", "A* uses a consistent heuristic and returns a shortest path",
     "A* returns a path that starts at the origin, follows allowed moves and ends at the destination, of minimal number of moves, exactly when one exists. Its heuristic never overestimates the remaining moves, is zero at the destination, and changes by at most one per move, with and without diagonals.",
     IC, "all grids, movement functions, origins, destinations, both diagonal modes",
     "An inconsistent heuristic shows only on particular maps; tests run a few.",
     [S + "astar.rs"], [("AstarIterator::next, heuristic", "astar.rs")],
     "abstract interpretation of MIR: one call of the iterator in an arbitrary state against the relaxation rules, priorities against the distance of symbolic positions; scripted iterations of the search; reconstruction of the path"),
    ("C21", "Reconstructed paths are valid walks and reconstruction always ends",
     "Turning a map of recorded moves into a path gives exactly the walk from origin to destination, one recorded move at a time, or an error when there is none or the moves leave the grid or never reach the origin. It terminates for every map, also for maps with cycles, and accepts every simple path of the grid.",
     IC, "all maps of moves, origins, destinations, grid sizes",
     "Cyclic and longest-possible maps of every size cannot be enumerated.",
     [S + "mappos.rs"], [("camefrom_into_path", "mappos.rs")],
     "loop analysis of MIR: step rule, bounded counter and exit conditions"),
    ("C22", "The convenience entry points are the same search as the generic one",
     "Every convenience way to start a search or build a grid - by backend or through the all-in-one type - is the generic operation with the arguments, diagonal mode and grid size of its type, passed through unchanged. The result is returned unmodified, so all variants give the same answer on the same input.",
     IC, "all entry points, inputs and type parameters",
     "A swapped argument or dropped mode in one variant is visible only for asymmetric inputs on that variant.",
     [S + "bf.rs", S + "astar.rs", S + "ucs.rs", S + "base.rs", S + "mappos.rs"], [("Sqrid methods and *_grid/*_hash/*_btree", "bf.rs, astar.rs, ucs.rs")],
     "call-graph and dataflow rule on MIR: exactly one call to the generic operation with arguments and generics passed through"),
    ("C23", "Results depend only on the arguments",
     "No operation of the library reads or writes state outside of its arguments: no global state, clock, randomness, input or output. In particular results never depend on the iteration order of hash tables, so that equal calls give equal results in every run.",
     ["inputs", "schedules", "programs"], "all operations, all runs, all threads",
     "Dependence on hash seeds or global state varies between runs; a test run cannot see its absence.",
     ["src/"], [("absence of statics, interior mutability and hash iteration", "src/sqrid/*.rs")],
     "effect analysis over the MIR call graph of the whole crate"),
    ("C24", "Building a grid from values keeps every value at its place",
     "A grid built by repetition, default, collection or nested vectors holds at each position exactly the corresponding input value, and the default where the input has none. Inputs that do not fit are rejected (an error for nested vectors, a panic for iterators of the wrong length) and never truncated or shifted.",
     IC, "all grid sizes, element values, iterator lengths, vector shapes",
     "Ragged vectors and off-by-one lengths over all sizes are not enumerable.",
     [S + "grid.rs"], [("repeat, default, from_iter, try_from, extend_from_vecvec, neg", "grid.rs")],
     "abstract interpretation of MIR: element-wise construction rules and exact short instances"),
    ("C25", "Iterators never promise a wrong remaining length",
     "The length an iterator announces brackets the number of items it still returns: never a lower bound above, never an upper bound below the truth, at any point of the iteration.",
     ["inputs", "configurations", "histories"], "all iterators of the library in all states",
     "Tests read the announced length at the start only; the claim is about every state.",
     [S + "postrait.rs", S + "boundedint.rs", S + "dir.rs"], [("size_hint", "postrait.rs, boundedint.rs, dir.rs")],
     "abstract interpretation of MIR: announced length in a symbolic iterator state against the remaining count"),
    ("C28", "Operations documented as total never panic",
     "Given valid values, the operations of Pos, of tuples as positions, Dir, the bounded integers, Grid and Gridbool (construction and conversion, geometry, movement, "
     "parsing, indexing, flips and rotations, setting from iterators and nested vectors, every call of a position or value iterator) never panic and never overflow an arithmetic operation, whatever the "
     "grid size, the bounds and the values. A value that does not fit gives an error or None. Excluded are what is documented to panic (new_unwrap, new_static, From<bool>, collecting the wrong number "
     "of values), flips, rotations, indices, sizes and distances of tuples of signed integers, and sizes, indices and distances of tuples of 64- and 128-bit integers.",
     IC, "all public operations on grid positions, all sizes and values",
     "Arithmetic overflow at extreme sizes is not reached by tests.",
     ["src/sqrid/"], [("checked arithmetic", "src/sqrid/*.rs")],
     "abstract interpretation of MIR: unreachability of every panic edge"),
    ("C29", "Errors name the actual failure",
     "A failing library operation returns the error that names its cause, for every failing input, and no other error. Each error prints its own fixed, non-empty description, distinct from that of every other error.",
     I, "all failing operations and error values",
     "Each failure cause at each operation over all inputs cannot be sampled.",
     [S + "error.rs", S + "pos.rs", S + "dir.rs"], [("Error and its Display", "error.rs"), ("fallible operations", "pos.rs, dir.rs, boundedint.rs, grid.rs, postrait.rs")],
     "abstract interpretation of MIR over all error variants"),
    ("C30", "Sharing and sending between threads follows the contents",
     "A grid, boolean grid, position, direction, bounded integer or search iterator can be sent to or shared with another thread exactly when its contents can, and borrowing a grid follows the borrow of its cells. No safe program can obtain two live mutable paths to one cell, or keep a reference to a cell beyond the grid.",
     ["programs", "schedules"], "all client programs",
     "Rejection of all violating programs is decided by the type checker, not by running programs.",
     ["src/sqrid/"], [("auto traits, lifetimes in signatures", "src/sqrid/*.rs")],
     "type-level witnesses: auto-trait assertions and compile-fail programs with compiling twins"),
    ("C31", "Positions, directions and bounded integers print their value",
     "Printing a position gives its two coordinates in order as \"(x,y)\", printing a direction gives its compass name, and printing a bounded integer gives exactly the number it holds. This is so for every value, every grid size and every bounds.",
     IC, "all positions, directions, bounded integers, sizes and bounds",
     "Tests print a few values; swapped coordinates or a wrong name for one direction need the right value to show.",
     [S + "pos.rs", S + "dir.rs", S + "boundedint.rs"], [("Display and Debug impls", "pos.rs, dir.rs, boundedint.rs")],
     "abstract interpretation of MIR: the pieces written to the formatter on every path"),
    ("C27", "Printed grids show each cell in its line and column",
     "Printing a grid or a boolean grid shows its cells line by line in reading order, each line after its number, between the numbers of the columns above and below, with the digits of a number one below the other. Cells and column digits are padded by the options of the formatter, so that they align; a boolean cell is shown as \"#\" or \".\". Printing never panics and fails only when the formatter does.",
     IC, "all contents, element types and formatter options, grid sizes around every change of shape (one cell, one line, one column, numbers of one, two and three digits)",
     "Tests print two grids with known contents; a cell in a wrong place, a lost option or labels that shift with the number of digits need other sizes, contents and options.",
     [S + "grid.rs", S + "gridbool.rs"], [("Display", "grid.rs: display_fmt_helper, Display for Grid; gridbool.rs: Display for Gridbool")],
     "abstract interpretation of MIR: the pieces written to an unknown formatter, for unknown cells, at each of the chosen sizes"),
]

# id -> reason, for properties no check claims
NOT_APPLICABLE = {
    "C26": "how much time and memory a search takes depends on run-time sizes and the allocator; no sound static bound over MIR is in reach, and measuring would be a run-time test",
}

EXTRA = [
    ("C26", "Searches stay within their expected time and memory",
     "A search takes time and memory in proportion to the number of positions of the grid (times a logarithm where costs are ordered). It does not slow down superlinearly on particular maps.",
     IC, "all grids and movement functions", "Worst cases over all maps cannot be sampled, and timings are not stable.",
     [S + "bf.rs", S + "astar.rs", S + "ucs.rs"], [("search loops", "bf.rs, astar.rs, ucs.rs")]),
]
