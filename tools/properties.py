#!/usr/bin/env python3
"""writes ../properties.jsonl and ../MANIFEST.json"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
S = "barbarosa/src/"


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), (m[0], S + m[1]))) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }


PROPERTIES = [
    P("C01", "Turns of the 2x2 and 3x3 move stickers as on a physical cube",
      "Applying any face turn (any of six faces, by a quarter, a half or an inverse quarter) to a 2x2 or 3x3 cube in any reachable state moves every corner and edge, including how it is oriented, exactly as turning that face clockwise by that amount moves it on a physical cube. Every piece moves independently of where the other pieces are.",
      ["inputs", "histories"], "all reachable cube states (43 quintillion on the 3x3) and all 18 turns, hence all move sequences",
      "the tests try a handful of algorithms (sexy move, T perm) from the solved state; an error in one orientation rule for one face and amount that those algorithms cancel out is not seen",
      ["cube_n/pieces/corner.rs", "cube_n/pieces/edge.rs", "cube_n/moves/rotation.rs", "cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs"],
      [("rotation of a corner and of an edge", "cube_n/pieces/corner.rs"), ("rotation of slice coordinates", "cube_n/moves/rotation.rs")],
      [("Corner", "position and axis of the orientation sticker", "cube_n/pieces/corner.rs"), ("Edge", "normal axis, slice position, oriented", "cube_n/pieces/edge.rs")],
      ["Movable::apply on Cube2 and Cube3"]),
    P("C02", "Wide turns of the 4x4 to 7x7 move whole layers of a physical cube",
      "On the 4x4, 5x5, 6x6 and 7x7, a wide turn of depth d rotates exactly the outermost d+1 layers of the named face clockwise by the given amount: every corner, edge, wing and center piece in those layers moves as on a physical cube and every other piece stays. Every kind of movable piece that a physical cube of that size has is present exactly once.",
      ["inputs", "histories"], "all reachable states of every piece of four cube sizes, all faces, amounts and depths, hence all move sequences",
      "the tests check a few algorithms and counts per cube; most piece kinds (oblique centers, inner wings) are exercised on a few turns from the solved state only",
      ["cube_n/pieces/wing.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs", "cube_n/moves/wide.rs", "cube_n/cube4/mod.rs", "cube_n/cube5/mod.rs", "cube_n/cube6/mod.rs", "cube_n/cube7/mod.rs"],
      [("which pieces a wide turn of a given depth contains", "cube_n/moves/wide.rs"), ("composition of the piece sets of each cube", "cube_n/cube7/mod.rs")],
      [("DepthPieceSet", "pieces of one kind with their normal and tangent depth", "cube_n/moves/wide.rs")],
      ["Movable::apply on Cube4..Cube7"]),
    P("C03", "The same turn written with different move types has the same effect",
      "A plain face turn turns only the outermost layer on every cube size, exactly like a wide turn of depth zero. A wide turn written with a type of smaller maximum depth has the same effect on a cube as the same turn written with the cube's own wide turn type.",
      ["inputs"], "all cube sizes, states, faces, amounts and depths, all move types a cube accepts",
      "the tests use one move type per cube; the conversions between types are tested on single moves or not at all",
      ["cube_n/moves/wide.rs", "cube_n/cube4/mod.rs", "cube_n/cube7/mod.rs"],
      [("macro that derives the narrower move types", "cube_n/moves/wide.rs")], (), ["Movable::apply"]),
    P("C04", "A cube counts as solved exactly when every face shows one colour of its own",
      "For every reachable state of every cube size from 2x2 to 7x7, the cube reports that it is solved if and only if every sticker is on the face of its colour, with the cube held in its fixed frame. Center pieces of one colour are interchangeable, and no other piece is.",
      ["inputs"], "all reachable states of all six cube sizes",
      "the tests ask about a few states (solved, one move away, one center cycle); a piece kind or one attribute forgotten in the comparison is visible only in particular states",
      ["generic/mod.rs", "generic/piece/set.rs", "cube_n/cube4/mod.rs", "cube_n/cube5/mod.rs", "cube_n/cube6/mod.rs", "cube_n/cube7/mod.rs", "cube_n/pieces/center/corner.rs"],
      [("solved test of the cubes with centers", "cube_n/cube6/mod.rs"), ("solved test of each piece", "generic/piece/set.rs")], (), ["Cube::is_solved"]),
    P("C05", "A move and its inverse undo each other",
      "For every move type (face turns, rotations, wide turns, slice and rotation notation, quarter turns, simultaneous parallel turns) and every cube that accepts it, applying a move and then its inverse, or the inverse and then the move, leaves the cube exactly as it was, and the inverse of the inverse is the move itself. Reversing an alg yields the inverses of its moves in the opposite order and leaves the alg itself unchanged, so that an alg followed by its reverse changes nothing.",
      ["inputs"], "all moves of all move types, all cube sizes and states including the orientation of an oriented cube, algs of any length",
      "the tests undo a few moves on solved cubes; an inverse that is wrong for one amount of one composite move, or that forgets one attribute, is not seen",
      ["generic/moves.rs", "generic/alg.rs", "cube_n/moves/mod.rs", "cube_n/moves/rotation.rs", "cube_n/moves/wide.rs", "cube_n/moves/extended.rs", "cube_n/moves/non_redundant.rs"],
      [("inverse of amounts, moves, rotations", "cube_n/moves/mod.rs"), ("reversal of an alg", "generic/alg.rs")], (), ["Move::inverse", "Alg::reversed"]),
    P("C06", "Random cubes are solvable and every piece can be anywhere",
      "A randomly generated 2x2 or 3x3 cube is always one that can be reached by turns: the pieces are a permutation, the corner twists add up to a multiple of three, the number of flipped edges is even and corner and edge permutations have the same parity. Each piece can appear at every place in every orientation. The three functions that repair an impossible assembly leave a possible one unchanged and change nothing but the quantity they repair.",
      ["inputs"], "all outcomes of the random draws, all assemblies given to the repair functions",
      "tests draw a few cubes with one generator; an error for rare draws (for instance a repair that misjudges one arrangement) is not seen",
      ["cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs", "cube_n/invariants.rs"],
      [("repairs of twist, flip and parity", "cube_n/invariants.rs")], (), ["Distribution<Cube3>::sample", "invariants::fix_*"]),
    P("C07", "Numbering of assemblies is a bijection",
      "The index of an assembly of the eight corners or of six of the twelve edges lies between 0 and the number of assemblies minus one, two different assemblies never have the same index, converting an index to an assembly and back yields the same index, and converting an assembly to its index and back yields the same assembly. Splitting a whole cube into the indices of its corners and of its two halves of edges and back yields the same cube.",
      ["inputs"], "all assemblies (88,179,840 of corners, 42,577,920 of half the edges) and all indices",
      "tests sample random assemblies; a collision or an out-of-range index in a small part of the numbering corrupts the lookup tables silently",
      ["cube_n/cube3/mus/index/mod.rs", "cube_n/cube3/mus/index/implementations.rs", "cube_n/cube3/mus/deindex/mod.rs", "cube_n/cube3/mus/deindex/implementations.rs"],
      [("numbering of permutations and orientations", "cube_n/cube3/mus/index/mod.rs")], (), ["index/from_index of piece sets", "Cube3 indices"]),
    P("C12", "Algs and composite moves mean the face turns they stand for, in order",
      "Applying an alg (or a slice of moves) to anything movable applies its moves one after the other in order and leaves the alg as it was. A quarter turn, a simultaneous turn of two parallel faces and a single non redundant move have the same effect as the face turns they are made of, before and after any conversion between these types; converting a list converts each element in order. Widening an alg keeps its turns and gives all of them the requested depth, and fails exactly when it has turns to be given a depth larger than the move type allows.",
      ["inputs"], "all algs, all moves of each type, all cube states, all depths",
      "the tests convert a few short algs; a conversion that swaps the two faces, or is wrong for the double turn only, needs the particular move to be tried",
      ["generic/alg.rs", "generic/moves.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/quarter.rs", "cube_n/moves/wide.rs"],
      [("conversions of parallel turns", "cube_n/moves/non_redundant.rs"), ("application of algs", "generic/alg.rs")], (), ["Movable<Alg>", "From conversions", "Alg::widen"]),
    P("C13", "Normalizing an alg keeps its effect and removes all redundancy",
      "Normalizing an alg of face turns yields an alg with the same effect on every cube, in which no two turns of one face can be merged or cancelled, not even across turns of the opposite face.",
      ["inputs"], "all algs of face turns",
      "the tests normalize a handful of algs; cancellations that only become possible after other cancellations, or across the opposite face, are the difficult ones",
      ["cube_n/moves/non_redundant.rs", "generic/alg.rs"],
      [("normalization", "cube_n/moves/non_redundant.rs")], (), ["Alg::normalized"]),
    P("C14", "Enumerations of moves, faces and successors are complete and without repetition",
      "The list of all face turns has exactly the 18 turns, the list of faces the six faces, the lists of non redundant moves exactly the single and parallel turns of the axes asked for (all, one axis, or all but the axis of the last move), each exactly once. The successors of a cube are the 18 cubes one turn away, each paired with that turn. The index of a face is a number from 0 to 5 that no other face has.",
      ["inputs"], "all enumerations, all cube states for successors",
      "tests count elements or try a few; a duplicated element in place of a missing one keeps the count and makes searches incomplete only in places",
      ["cube_n/moves/mod.rs", "cube_n/moves/non_redundant.rs", "cube_n/space/face.rs", "generic/mod.rs", "cube_n/search.rs"],
      [("enumeration of non redundant moves", "cube_n/moves/non_redundant.rs"), ("enumeration of faces and turns", "cube_n/space/face.rs")], (), ["AxisMove::all", "NonRedundantAxisMove::all/of_axis/given_last_axis", "Face::iter", "successors"]),
    P("C22", "Connecting states finds the move between them exactly when there is one",
      "Asked for the move that leads from one state to another, the library returns a move that does, whenever one of the moves does, and nothing otherwise. Turning a list of states into an alg yields one such move for each step, and fails exactly when some step has no move.",
      ["inputs"], "all pairs and lists of states of anything movable",
      "the tests connect a few states of one cube",
      ["generic/moves.rs", "generic/alg.rs"],
      [("connect", "generic/moves.rs"), ("try_from_states", "generic/alg.rs")], (), ["connect", "Alg::try_from_states"]),
    P("C24", "Random moves and algs are what they promise",
      "A random alg has exactly the requested number of moves; a random alg that is promised to be free of redundancy has no two turns that can be merged or cancelled. A random move is always a valid one (for wide turns, of an allowed depth), and each valid move can come up.",
      ["inputs"], "all outcomes of the random draws, all lengths",
      "tests draw some algs; an outcome that needs a rare coincidence of draws (for instance the same axis drawn again at the last move) is not seen",
      ["generic/alg.rs", "cube_n/moves/non_redundant.rs", "cube_n/moves/mod.rs", "cube_n/moves/wide.rs", "generic/scramble.rs"],
      [("random alg without redundancy", "cube_n/moves/non_redundant.rs")], (), ["Alg::random_with_rng", "Alg::random_unnormalized_with_rng", "Distribution of moves"]),
    P("C15", "Oriented cubes follow the physical cube",
      "A cube together with the orientation it is held in follows the physical cube through every move of the extended notation: face turns, rotations of the whole cube, wide turns of any depth and slice turns. After the move the base cube seen through the new orientation is the physical cube after the move, and the centers that do not move stay where they are. Two faces form an orientation exactly when they are on different axes, the rotations an orientation lists lead to it from the default one, and rotating an orientation turns both its faces.",
      ["inputs"], "all extended moves, all 24 orientations, all states of cubes of size 2 to 7",
      "the tests do a few rotations and wide moves from the default orientation; a wrong axis for one orientation or for even cubes only is not seen",
      ["cube_n/moves/extended.rs", "cube_n/orientable/mod.rs", "cube_n/moves/rotation.rs"],
      [("extended moves on oriented cubes", "cube_n/moves/extended.rs"), ("orientation bookkeeping", "cube_n/moves/rotation.rs")], (), ["Orientable::apply", "Orientation"]),
    P("C11", "Searches are sound, and optimal with an admissible heuristic",
      "If a search returns an alg and a state, the alg leads from the start to that state along the given successors, and the state is a target. If the heuristic never exceeds the true distance to a target, the alg is a shortest one. With a heuristic in whole numbers, a target at most max_depth moves away is found. Solving is searching for the solved state, for every cube and searcher.",
      ["inputs", "histories"], "all graphs of states, all starts, targets and heuristics",
      "tests solve a few scrambles with one heuristic; a wrong bound update or a pruned branch loses optimality or completeness only on particular graphs",
      ["generic/search/ida.rs", "generic/search/mod.rs", "cube_n/search.rs"],
      [("iterative deepening", "generic/search/ida.rs")], (), ["IDASearcher::search", "Solver::solve", "Cube3::solve_with_heuristic"]),
    P("C16", "Distances and heuristics are what they are said to be",
      "For each edge of the 3x3, min_moves_to_solve is exactly the least number of face turns that brings the edge home oriented. The admissible heuristic for the cross is the largest of these values over the four cross edges, so that it never exceeds the number of turns a cross needs; the other one is half their sum. The Manhattan distance of a piece is the sum of the differences of its coordinates to those of its home, that of a cube one sixteenth of the sum over its pieces, and a filtered one the sum over the selected pieces.",
      ["inputs"], "all states of edges and cubes, all faces",
      "tests compare a few edges; one wrong entry of the case analysis makes a search miss optimal solutions rarely",
      ["cube_n/pieces/edge.rs", "cube_n/cube3/cfop/cross.rs", "cube_n/cube3/heuristics/manhattan.rs", "cube_n/cube3/heuristics/mod.rs"],
      [("case analysis of edge distances", "cube_n/pieces/edge.rs"), ("cross heuristics", "cube_n/cube3/cfop/cross.rs")], (), ["min_moves_to_solve", "cross heuristics", "manhattan"]),
    P("C18", "Sets of pieces keep their bookkeeping",
      "A set of pieces accepts exactly the pieces that are in distinct places and keeps them. Swapping two original places exchanges exactly the two pieces that belong there; looking a piece up by its original place and by its current place are inverse to each other; iterating gives each piece once, in the order of the places; a set is solved exactly when each of its pieces is; moving a set moves each piece; shuffling permutes the pieces and can give any order. For every type of piece the reference places are distinct and the solved piece of a place is there and solved.",
      ["inputs"], "all assemblies of pieces, all pairs of places",
      "tests use the solved cube or a few moves, where original and current places coincide or differ little",
      ["generic/piece/set.rs", "generic/piece/mod.rs", "cube_n/pieces/corner.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs"],
      [("PieceSet", "generic/piece/set.rs")], (), ["PieceSet"]),
    P("C21", "A wide move is never deeper than its type allows",
      "A WideAxisMove<N> has a depth of at most N, however it is made: creation, widening a move or an alg, changing the depth, changing the maximum, inverting, converting and drawing at random. Each of these succeeds exactly when the requested depth is allowed and then keeps face, amount and depth; a refused change leaves the move as it was.",
      ["inputs"], "all depths, all turns, all maxima N",
      "tests try one or two depths; the limits (depth N, N + 1, the largest number) are where the mistakes are",
      ["cube_n/moves/wide.rs", "cube_n/moves/extended.rs", "cube_n/moves/mod.rs"],
      [("depth checks", "cube_n/moves/wide.rs")], (), ["WideAxisMove::new/set_depth/set_max_depth", "widen"]),
    P("C23", "Axes, directions, faces and amounts follow the geometry of space",
      "Faces are the signed unit vectors with R, U, F positive; opposite, next and previous around an axis, cross product, coordinates, index, name and containment of corners and edges agree with that. Axes are cyclic X, Y, Z: next, previous, offset, handedness, the other of two, the basis of the plane across and mapping on that plane. Amounts add modulo a full turn and change sign with the direction. Rotating faces, axes, vectors, moves and slice vectors is the clockwise rotation of space, seen from the positive end of the axis.",
      ["inputs"], "all arguments of these functions",
      "tests try some arguments; each function is a table with a handful of entries most of which only some piece in some state uses",
      ["cube_n/space/axis.rs", "cube_n/space/direction.rs", "cube_n/space/face.rs", "cube_n/moves/rotation.rs", "cube_n/moves/amount.rs", "generic/utils.rs"],
      [("faces", "cube_n/space/face.rs"), ("rotations", "cube_n/moves/rotation.rs")], (), ["Axis", "Direction", "Face", "Amount", "Rotatable"]),
    P("C25", "Cross functions count and solve the cross",
      "The cross edges of a face are the four edges on that face. The number of cross pieces of a cube is the number of these edges that are in place and oriented. Solving the cross returns an alg together with the cube it leads to, in which the number is four; the slow solver returns a shortest alg.",
      ["inputs"], "all cubes, all faces",
      "tests solve some crosses of one or two faces",
      ["cube_n/cube3/cfop/cross.rs"],
      [("cross", "cube_n/cube3/cfop/cross.rs")], (), ["is_cross_edge", "get_cross_pieces", "count_cross_pieces", "solve_cross", "solve_cross_fast"]),
    P("C26", "Pieces describe themselves correctly",
      "What a piece says about itself is true of the place it is in and of how it is turned: the faces, coordinates, normal axis and direction, main and side face of corners, edges, wings and center pieces are those it was made from and rotate along with the piece; pieces can be made from two faces exactly when these are on different axes. The orientation index of a corner counts clockwise thirds, twisting adds one, flipping an edge changes its orientation and nothing else, and an edge's orientation is judged on its U or D sticker, or on its F or B sticker if it has none.",
      ["inputs"], "all pieces in all places and orientations, all rotations",
      "tests look at some pieces; an accessor that is wrong for one axis or handedness corrupts whatever uses it (visualization, indices, wide moves)",
      ["cube_n/pieces/corner.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs"],
      [("accessors of pieces", "cube_n/pieces/edge.rs")], (), ["Corner", "Edge", "Wing", "CenterEdge", "CenterWing"]),
    P("C17", "The unfolded picture shows the stickers of the cube",
      "Each cell of the unfolded picture of a cube has the colour of the sticker that is at that place of the physical cube, for every state of the cube: the picture is one sheet of paper with U above F, D below F, B below D, L left and R right of F. The cell returned for the coordinates of a piece is the cell of that piece, for every size. Colours of a corner or edge are those of the faces of its home place, each on the side it has been turned to. Printing writes each cell in the colour the scheme gives to its face, in that arrangement, for every size.",
      ["inputs"], "all states of 2x2 and 3x3 cubes, all contents of a picture, all coordinates of pieces for sizes 2 to 7",
      "tests print two states without looking at the result and look up a few coordinates",
      ["cube_n/visualization/mod.rs", "cube_n/visualization/unfolded/mod.rs"],
      [("colours of pieces", "cube_n/visualization/mod.rs"), ("cells", "cube_n/visualization/unfolded/mod.rs")], (), ["Colored", "Square::at", "Unfolded::populate_with", "Display"]),
    P("C09", "Texts are read as exactly the moves the notation gives them",
      "Reading any text as a face, amount, face turn, rotation, axis, wide move, extended move or alg gives the move of the notation or an error, and never panics. The whole text must match: anything before or after the move is refused. Faces are R U F L D B; no mark, 2 and ' are the quarter, half and inverse turn; x y z rotate the cube; M E S turn the middle slice in the sense of L, D and F, and small letters m e s the wide slice; w after a face or a small face letter is a wide turn of depth one, and one digit before it gives the depth (at least one), refused when deeper than the type allows; an extended move of depth zero is a plain face turn. An alg is words separated by white space, each read as a move, and is refused as a whole if one of them is.",
      ["inputs"], "all texts up to 6 and of 12 ASCII characters, texts of other scripts, algs of several words",
      "tests read some thirty texts; texts nobody thought of (other scripts, white space, trailing characters) are what users type",
      ["cube_n/parser/mod.rs", "generic/parse.rs", "generic/alg.rs", "grammar/cube_n.pest"],
      [("conversion of parser pairs", "cube_n/parser/mod.rs"), ("whole text check", "generic/parse.rs"), ("grammar", "grammar/cube_n.pest")], (), ["Parsable::parse"]),
    P("C10", "What is printed is the standard text and reads back as the same value",
      "Printing a face, an amount, a face turn, a wide move, a non redundant move or an alg never fails and gives the standard text: face letter and mark, w for a wide turn of depth one and the number of layers before it for a deeper one, moves separated by one space. Reading that text gives the same value back.",
      ["inputs"], "all faces, amounts, face turns, non redundant moves; wide moves up to depth 119; algs of several arbitrary moves",
      "one test prints one wide move and others print short non redundant moves; nothing reads a printed text back",
      ["cube_n/moves/mod.rs", "cube_n/moves/amount.rs", "cube_n/moves/wide.rs", "cube_n/moves/non_redundant.rs", "cube_n/space/face.rs", "generic/alg.rs"],
      [("printing of wide moves", "cube_n/moves/wide.rs"), ("printing of algs", "generic/alg.rs")], (), ["Display", "Parsable::parse"]),
    P("C08", "The MUS heuristic never overestimates",
      "Each built table holds, for every state of the corners or of half of the edges, the fewest face turns that solve it. The value of a cube is the largest of the entries of its corners, of its first six edges and of its other six edges, which are looked up as what they are when the cube is held upside down; so it is never more than the number of turns that solve the cube, and 0 on the solved cube. The tables are loaded once; as long as they are not, there is no value and the given fallback is used.",
      ["inputs", "histories"], "all states of corners and half edges, all cubes",
      "building the tables takes minutes and the tests skip it or build nothing; a wrong entry anywhere among 130 million makes solutions longer than needed without any error",
      ["cube_n/cube3/mus/cache/mod.rs", "cube_n/cube3/mus/cache/generation.rs", "cube_n/cube3/mus/index/mod.rs", "cube_n/cube3/heuristics/mus.rs"],
      [("breadth first generation", "cube_n/cube3/mus/cache/generation.rs"), ("lookup", "cube_n/cube3/mus/cache/mod.rs"), ("second edges as first edges", "cube_n/cube3/mus/index/mod.rs")],
      [("CACHE_LOCK", "the tables everybody uses", "cube_n/cube3/mus/cache/mod.rs")], ["Cache::get", "heuristics::mus", "heuristics::mus_with_fallback"]),
    P("C20", "Tables on disk are used only if complete, and never lost",
      "Loading a table returns the content of its file if that has exactly as many bytes as there are states, and otherwise an error: NotFound if it does not exist, the error of the operation if reading fails, and an error, not a panic or a table, if the length is wrong (say after a crash while writing). A table is built only if its file does not exist; then it is written to that file, whose folder is made if it is missing, and the table returned is the table written. A file that exists is never overwritten, whatever it contains, and every failure of the disk is returned as that error.",
      ["inputs", "crash_points"], "all states of the disk: file and folder present or not, all lengths and contents; failure of any operation with any error",
      "the tests touch the disk in one state only",
      ["cube_n/cube3/mus/cache/disk_storage.rs", "cube_n/cube3/mus/cache/generation.rs", "cube_n/cube3/mus/cache/mod.rs"],
      [("loading, writing", "cube_n/cube3/mus/cache/disk_storage.rs"), ("building", "cube_n/cube3/mus/cache/generation.rs")], (), ["Cache::load", "Cache::init"]),
    P("C27", "The playground answers every line and keeps the cube",
      "The playground shows the solved cube, then for each line of input that is an alg the cube after this and all previous algs. A line that is not an alg, or cannot be read, is answered by one error message, changes nothing and does not end the playground. The end of input ends it, without a panic.",
      ["inputs", "histories"], "all sequences of lines and the end of input at any point",
      "no test runs the program",
      ["main.rs"],
      [("loop", "main.rs")], (), ["playground_3x3"]),
    P("C30", "The program does what its flags ask",
      "Called with --build-mus-cache the program makes sure the tables are there, called with --playground-3x3 or -p it opens the playground; with both it does both, in whatever order they are given, and with neither it does neither. An argument it does not know is refused with an error code, before anything is done.",
      ["inputs"], "all combinations, orders and spellings of the flags",
      "no test runs the program",
      ["main.rs"],
      [("flags", "main.rs")], (), ["main", "CliArgs"]),
    P("C28", "Turning and holding commute",
      "Turning a piece, or doing an alg, and then holding it differently is the same as holding it differently first and then doing the turn or the alg as seen from there. Whether a piece of a big cube takes part in a wide turn does not depend on how the cube is held. Rotations of anything (axes, faces, vectors, moves, algs, pieces) compose like rotations of space: a half rotation is two quarters, an inverse is three, four are nothing, and a rotation after another is the other after the rotation seen from there. An alg is rotated move by move.",
      ["inputs"], "all pieces of all kinds, all turns, all rotations, all wide turns up to depth 3 and all layers",
      "the tests rotate a few faces; a special case for one axis and one direction shows only in a cube held that way",
      ["cube_n/moves/rotation.rs", "cube_n/moves/wide.rs", "cube_n/moves/mod.rs", "cube_n/pieces/corner.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs", "cube_n/space/face.rs", "generic/alg.rs"],
      [("rotation of everything", "cube_n/moves/rotation.rs"), ("layers of wide turns", "cube_n/moves/wide.rs")], (), ["Rotatable::rotate", "Movable::apply", "DepthPiece::is_in_wide_move"]),
    P("C29", "Equality and hashing mean being the same",
      "Two faces, pieces, moves, algs, sets of pieces or cubes compare equal exactly if they are the same: the same place and orientation of every piece, the same face, depth and amount of every move. Equal values feed the same to a hasher, whichever moves led to them, and a clone is equal to, and hashes like, what it was cloned from. What stands for the same is the same however it was made.",
      ["inputs"], "all pairs of faces, pieces and moves; algs, sets and cubes that differ in one thing or nothing",
      "searches and sets of states rely on it for every pair of states; tests compare a few",
      ["cube_n/cube2/mod.rs", "cube_n/cube3/mod.rs", "cube_n/cube4/mod.rs", "cube_n/pieces/corner.rs", "cube_n/pieces/edge.rs", "cube_n/pieces/wing.rs", "cube_n/pieces/center/corner.rs", "cube_n/pieces/center/edge.rs", "cube_n/pieces/center/wing.rs", "cube_n/space/face.rs", "cube_n/moves/mod.rs", "cube_n/moves/wide.rs", "generic/alg.rs", "generic/piece/set.rs"],
      [("pieces", "cube_n/pieces/corner.rs"), ("sets", "generic/piece/set.rs"), ("moves", "cube_n/moves/mod.rs")], (), ["PartialEq::eq", "Hash::hash", "Clone::clone"]),
    P("C19", "Nothing panics, overflows or is undefined",
      "Whatever the public functions of the crate are called with, by safe code and within their documented domain, there is no undefined behaviour (no read out of bounds, no invalid value) and no panic, arithmetic overflow included: making, turning, holding, comparing, hashing, printing and parsing moves, pieces and cubes; random cubes and algs; normalizing, reversing and connecting; indices of all cubes and of all indices in range; building, loading and looking up tables, with any content of the files and for any assembly of pieces that can be taken apart and put together, solvable or not; indices of any assembly, also one with a piece twice (of which a lookup may panic, as no table has it, but never reads out of bounds); searching; drawing; the playground on any input. The CFOP solver, which is declared but not written, is excepted.",
      ["inputs", "histories", "crash_points"], "all inputs of all public functions",
      "a panic or an undefined read for one unusual input (an unsolvable assembly, a letter of another script, a truncated file) is not met by tests of ordinary inputs",
      ["cube_n/cube3/mus/index/mod.rs", "cube_n/cube3/mus/index/implementations.rs", "cube_n/cube3/mus/cache/mod.rs", "cube_n/cube3/mus/cache/disk_storage.rs", "cube_n/cube3/mus/cache/generation.rs", "generic/parse.rs", "cube_n/parser/mod.rs", "cube_n/visualization/unfolded/mod.rs", "main.rs"],
      [("indices", "cube_n/cube3/mus/index/mod.rs"), ("lookups", "cube_n/cube3/mus/cache/mod.rs"), ("arrays built in place", "generic/piece/set.rs")], (), ["every public function"]),
]

NOT_APPLICABLE = []


def main():
    from vp.props import PROPS

    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            f.write(json.dumps(p) + "\n")
    claimed = [p["id"] for p in PROPERTIES if p["id"] in PROPS]
    na = dict(NOT_APPLICABLE)
    man = {
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "hooks": {
            "guard": "cfg barbarosa_verif",
            "enable": "the analyser compiles barbarosa with --cfg=barbarosa_verif (STA_CFG in driver/src/main.rs, set by vp/common.py for the feature `cache`)",
            "source_commits": ["7691031"],
        },
        "checks": [
            {
                "property": i,
                "quick_cmd": f"python3 check.py {i}",
                "thorough_cmd": f"python3 check.py {i} --thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": PROPS[i].get("technique", "static analysis: abstract interpretation of MIR over finite-domain decision diagrams"),
                "level": PROPS[i]["level"],
                "level_note": PROPS[i].get("note", "Complete for the stated domain; trusts rustc's MIR, the analyser's transfer functions and the reference model in /verif/vp."),
            }
            for i in claimed
        ],
        "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "the check is not built yet")} for p in PROPERTIES if p["id"] not in PROPS],
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
