"""Which proof units decide which property, and what they assume."""

UNITS = {
    # unit: verus options, rlimit used for the retry, timeout, functions whose reachability probe may be dead
    "U01": {},
    "MZ": {},
    "MP": {},
    "MR": {},
    "M6": {},
    "SP": {},
    "NP": {},
    "SQ": {},
    "NR": {},
    "XC": {},
    "SS": {},
    "NS": {},
    "GP": {},
    "SD": {"expand": True},  # derived code: needs rustc's expansion of the crate
}

COMMON = [
    "vx's extraction rules preserve behaviour (each application is listed in extraction_rewrites; rules in DESIGN.md)",
    "vstd's specifications of the standard library (Vec, slices, Option, iterators) describe the real one",
    "termination by stack or memory exhaustion is outside the model",
]

RAND = "rand 0.8: IteratorRandom::choose on a range returns some member of the range, None exactly if it is empty (assumed contract; nothing is assumed about its distribution)"
MAZE = [RAND, "width and height are at least 1 and 2*width*height <= usize::MAX (a Vec of that many cells could not be allocated otherwise)"]

IMG = "image 0.25: a picture is its two sides and a pixel per coordinate; from_pixel, width, height, put_pixel behave as the shim in proofs/img.vi says (put_pixel outside the picture panics, so coordinates inside are a proof obligation); a picture too large to allocate is memory exhaustion"
TEXT = "ab_glyph / imageproc: the bundled font parses; draw_text_mut never panics, keeps the picture's size and leaves pixels that already have the text colour unchanged (what it writes is arbitrary otherwise)"

HEAP = "memory: alloc of the node layout succeeds and returns an address that is non-zero and not in use; a read, write or free needs a live node (an obligation at each); pointers are their addresses (no provenance or aliasing model)"

SORT = "sort_unstable sorts: non-decreasing, same elements"

SIDES = ["both sides are below 2^31, their product fits in usize, and the sum of a rule's entries plus one per entry stays below usize::MAX - 2 (part of the property)", "iter_mut().step_by(n).collect() of a slice is modelled as copying the squares out and writing them back: they are distinct squares borrowed for that call alone"]

PROPS = {
    "U01": {
        "units": ["U01"], "note": "All functions of DisjointSet satisfy contracts stating the partition semantics, for every size and history.",
        "assumptions": COMMON,
    },
    "M01": {"note": "Proved for every width, height and sequence of random choices.", "units": ["MZ"], "assumptions": COMMON + MAZE},
    "M02": {"note": "Proved for every width, height and sequence of random choices.", "units": ["MZ"], "functions": {"MZ": ["create_maze"]}, "assumptions": COMMON + MAZE},
    "M03": {"note": "Termination (decreases clauses) and absence of panics proved for every width, height and sequence of random choices.", "units": ["MZ"], "assumptions": COMMON + MAZE},
    "M04": {"units": ["MP"], "note": "Every pixel of every picture, for every grid of wall flags.",
            "assumptions": COMMON + [IMG, "the picture's sides and the number of cells fit in 32 bits (part of the property)"]},
    "M05": {"units": ["MR"], "note": "Success is proved equivalent to the route's centre line lying inside the picture; every pixel is specified.",
            "assumptions": COMMON + [IMG, "the picture's sides are below 2^32 - 32 (part of the property)"]},
    "M06": {"units": ["M6"], "note": "A client of creation, printing and route drawing is verified against their contracts, which are verified in the same unit; lemmas show that a route through open passages meets no wall pixel.",
            "assumptions": COMMON + MAZE + [IMG, "the picture's sides are below 2^32 - 32 and the number of cells fits in 32 bits (part of the property)"]},
    "S05": {"units": ["SP"], "note": "Every board and every slice length.", "assumptions": COMMON + [IMG, TEXT]},
    "N05": {"units": ["NP"], "functions": {"NP": ["print_nonogram"]}, "note": "Every set of rules whose picture and captions fit in 32 bits.",
            "assumptions": COMMON + [IMG, TEXT, "std::cmp::max returns the larger argument"]},
    "N06": {"units": ["NP"], "functions": {"NP": ["print_nonogram_solution"]}, "note": "Every pair of dimensions, every picture, every grid; acceptance is proved equivalent to all dimensions matching.",
            "assumptions": COMMON + [IMG, "imageproc's draw_filled_rect_mut fills exactly the part of the rectangle that lies inside the picture", "std::cmp::max returns the larger argument", "a matching picture's sides fit in 31 bits and its cells in 32 (part of the property)"]},
    "N01": {"units": ["NS"], "note": "Every puzzle: the placement search, the deduction on one line, the fixpoint over the grid and the guessing are under contract down to the last helper.", "assumptions": COMMON + SIDES},
    "N02": {"units": ["NS"], "note": "Every puzzle, against all grids.", "assumptions": COMMON + SIDES},
    "N04": {"units": ["NS"], "note": "Termination (decreases clauses), every index, every subtraction, every unreachable!().", "assumptions": COMMON + SIDES},
    "S04": {"units": ["SQ"], "note": "Every string.", "assumptions": COMMON + ["str::chars yields the characters of the text in order", "char::to_digit(10) is Some(d) exactly for '0'..'9'"]},
    "N03": {"units": ["NR"], "note": "Every string and every bound below usize::MAX; the sum is mathematical, the code's saturating arithmetic is proved to decide it.",
            "assumptions": COMMON + ["str::split on a character yields the pieces between its occurrences", "str::parse::<usize> accepts exactly an optional plus followed by at least one decimal digit with a value up to usize::MAX, and returns that value", "the contract of saturating_add in vstd", "bound < usize::MAX (part of the property)"]},
    "X01": {"units": ["XC"], "note": "Every list of constraints and every sequence of committed rows; a solution is proved exact, and its absence is proved for all sets of rows.",
            "assumptions": COMMON + [HEAP, "the rows of a constraint are distinct and below usize::MAX (part of the property)"]},
    "X02": {"units": ["XC"], "note": "Every access is an obligation on the memory model; termination by decreases clauses; solve and drop are proved to leave exactly the memory that was there before the matrix was built.",
            "assumptions": COMMON + [HEAP, "the rows of a constraint are distinct and below usize::MAX (part of the property)"]},
    "G01": {"units": ["GP"], "note": "Relative to the encoder's assumed contract: decided is that the conversion asks for PNG, writes into an empty buffer and returns exactly that buffer; the search round-trips real pictures.",
            "assumptions": COMMON + ["image's write_to with ImageFormat::Png succeeds for a non-empty RGB picture and writes, from the cursor's position, a PNG file that decodes to the same sides and pixels"]},
    "G02": {"units": ["SD"], "note": "The derived impls, as rustc expands them from the working tree, under the contract of serde's data model: every value, every way in which a format may offer the fields (map in any order, sequence) and names (text, bytes, index).",
            "assumptions": COMMON + ["serde: every Serializer and Deserializer follows the data model as written down in proofs/serde.vi: the writer keeps names, keys and values as told, the reader offers the same content back, calls on a format do not fail, and bool is written and read as itself",
                                     "rustc's -Zunpretty=expanded text is the code it compiles; the expansion is made with the serde_derive of harness/Cargo.lock (the form of 1.0.204, which /repo's own lock names, is accepted too)"]},
    "S01": {"units": ["SS"], "note": "Every board; the engine it runs on is verified in the same unit.", "assumptions": COMMON + [HEAP, SORT]},
    "S02": {"units": ["SS"], "note": "Every board, against all grids.", "assumptions": COMMON + [HEAP, SORT]},
    "S03": {"units": ["SS"], "note": "Every slice; the memory after the call is proved equal to the memory before it, whatever was allocated.", "assumptions": COMMON + [HEAP, SORT]},
}

NOT_APPLICABLE = {
    "G02": "serialisation is generated by serde's derive macros and quantifies over external data formats; there is no function body in /repo to put under contract",
}
