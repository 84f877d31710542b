"""The parts of the checks that run a harness over generated values: source, configurations,
cases in quick and thorough mode (per configuration), and what a case is."""

ALL = ["int", "rat", "nostd", "libm"]
FULL = ["int", "rat"]
BITS = "values are drawn over all bit patterns with extra weight on zeros, infinities, NaN, subnormals, neighbouring and round numbers; "

VALUE = {
    "C03": [("c03.rs", ALL, 1_500_000, 30_000_000, "an operator form, storage type and operands; " + BITS + "non-trivial if the operands differ and none is zero")],
    "C04": [("c04.rs", ALL, 1_500_000, 30_000_000, "a unit or composite unit of one of two systems, a form of construction, division or conversion, a storage type and a value; " + BITS + "non-trivial if the value is not zero and the unit is not a base unit")],
    "C09": [("c09.rs", ALL, 2_000_000, 60_000_000, "one or two f64 over all finite bit patterns, an operation; non-trivial if the value (result) is finite and not zero")],
    "C10": [("c10.rs", ["rat"], 500_000, 30_000_000, "a sequence of operations on fractions, compared with a model over i128; non-trivial if a fraction is not an integer")],
    "C13": [("c13.rs", FULL, 20_000, 400_000, "a storage type, dimension, value and container, written and read with YAML and JSON; non-trivial unless the value is zero")],
    "C14": [("c14.rs", FULL, 250_000, 6_000_000, "a text: well-formed, well-formed with one edit, or arbitrary, read as a scalar or vector of a generated dimension and compared with an independent parser; non-trivial if it has at least two units, or is malformed or arbitrary text")],
    "C15": [("c15.rs", FULL, 2_000_000, 40_000_000, "a vector type, components and a method or a sequence of component accesses; non-trivial unless the vector is zero or both vectors are equal")],
    "C16": [("c16.rs", ALL, 2_000_000, 40_000_000, "one to three floats, often equal, adjacent or NaN, and a comparison in each operand form; non-trivial if the two values differ or are NaN")],
    "C17": [("c17.rs", ALL, 1_500_000, 40_000_000, "a function and an argument; " + BITS + "non-trivial if the argument is neither zero, one nor NaN")],
    "C18": [("c18.rs", ALL, 1_500_000, 40_000_000, "a power or root, a dimension and a value; " + BITS + "non-trivial if the value is neither zero, one nor NaN")],
    "C19": [("c19.rs", FULL, 400_000, 8_000_000, "bounds, a way of sampling, a generator and its seed; non-trivial if the range is valid and not empty")],
    "C20": [("c20.rs", FULL, 800_000, 12_000_000, "a storage type, values and a way of transfer; non-trivial if there are at least two values, or a struct")],
    "C21": [("c21.rs", FULL, 20_000, 500_000, "a storage type, values and a way of storage and reading; non-trivial if there are at least two values")],
    "C24": [("c24.rs", ALL, 1_500_000, 40_000_000, "a storage type, dimension and bit pattern; every case is non-trivial, equal cases count once")],
    "C26": [("c26.rs", ALL, 800_000, 20_000_000, "a history of up to some dozens of operations on a collection of quantities and its mirror; non-trivial if the history has at least four operations")],
}
