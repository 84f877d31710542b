"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
CG = "crates/diman_unit_system/src/codegen/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Dimensionally inconsistent programs never compile",
 """A program that adds, subtracts, compares, assigns, clamps, samples or passes quantities of different dimensions,
 that mixes a dimensionful quantity with a bare number, that calls a dimensionless-only method (trigonometry, value(), deref, conversion
 from a number) on a dimensionful quantity, that expresses a quantity in a unit of another dimension with value_in, or that annotates a result with a dimension other than its algebraic one, is rejected when it is built.
 In integer-exponent mode taking sqrt/cbrt of a quantity whose exponents are not all divisible by 2/3 is rejected as well.
 No choice of operator form (values, references, assignment operators, scalars on either side, units on either side, f32/f64/vector storage) gets around this.""",
 ["programs", "configurations"], "all programs over quantities, every operator form, storage type and dimension, in integer and rational exponent mode",
 "The repository has a handful of compile_fail snippets; the guarantee is about every ill-dimensioned program, over an unbounded set of operator forms and dimensions.",
 [CG+"num_traits/operator_trait.rs", CG+"unit_type.rs", CG+"float_methods.rs", CG+"vector_methods.rs", CG+"quantity_type.rs", CG+"dimension_type.rs"],
 [("operator impls generated only for matching dimensions", CG+"num_traits/operator_trait.rs"), ("dimension arithmetic in const generics", CG+"dimension_type.rs")],
 ["rustc diagnostics for generated programs"])

prop("C02", "Every consistent expression compiles with exactly its algebraic dimension",
 """Any dimensionally consistent expression built from quantities, storage values, units, constants, products, quotients, integer powers, squares, cubes,
 exact roots and the Product/Quotient type aliases compiles, and the dimension of its result is the exact algebraic one:
 exponents add under multiplication, subtract under division, are negated when a number or a unitless value is divided by a quantity or by a unit,
 scale under powers and divide under roots, independently of operand form (value or reference) and storage type. (rustc decides whether two unnamed results of the same operator have the same type by comparing their operands; such pairs are listed as known findings and compared through a named dimension elsewhere.)""",
 ["programs", "configurations"], "all well-dimensioned expression programs, over SI and user-defined systems, integer and rational exponents",
 "Tests check a few fixed products and quotients; the dimension arithmetic must be right for every combination of base dimensions, operator forms and exponents.",
 [CG+"dimension_type.rs", CG+"num_traits/operator_trait.rs", CG+"unit_type.rs", CG+"float_methods.rs", "src/lib.rs"],
 [("const fn add/sub/neg/mul/div_2/div_3 on the dimension type", CG+"dimension_type.rs"), ("Output types of the operator impls", CG+"num_traits/operator_trait.rs")],
 ["dimension const parameter of every intermediate result"])

prop("C03", "Arithmetic on quantities equals arithmetic on the stored values",
 """For every operator (+, -, *, /, unary minus, their assignment forms, Sum) and every supported operand form - quantity with quantity, with a reference, with a bare
 storage value on either side, with a dimensionless quantity - the stored value of the result equals what the same operator gives on the underlying storage values
 (same operands, same order), for f32, f64 and the glam vector types, including zeros, infinities, NaN, subnormals and overflow.""",
 ["inputs", "programs"], "all floating point operand values and all operator forms for every storage type",
 "Tests use one or two friendly numbers per operator form; a swapped operand, a wrong operator or a lossy conversion in one of the ~150 generated impls can hide behind them.",
 [CG+"num_traits/operator_trait.rs", CG+"num_traits/mod.rs", CG+"storage_types.rs"],
 [("generated operator impls delegate to the storage type", CG+"num_traits/operator_trait.rs")], ["value_unchecked() of results vs raw storage arithmetic"])

prop("C04", "Unit multiplication, division and value_in convert by the unit's exact factor",
 """Building a quantity from a number and a unit (value * unit, unit * value, unit.new(value), quantity * unit) multiplies by the unit's conversion factor; dividing (value / unit, quantity / unit)
 divides by it; unit / value and unit / quantity are the unit's factor divided by the value; composite units formed by multiplying or dividing two units use the product or quotient of their factors;
 value_in(unit) divides the stored value by the factor, so it inverts construction up to rounding.
 In every case the dimension of the result is the matching product, quotient or inverse, for every storage type for which the form is offered. value_in with a unit of a different dimension is refused.""",
 ["inputs", "programs"], "all values, all units and composite units, all construction and conversion forms and storage types",
 "Tests cover a few units and values; division forms with units are not tested at all.",
 [CG+"unit_type.rs", CG+"quantity_type.rs", "crates/diman_lib/src/magnitude.rs"],
 [("Mul/Div impls between units, runtime units, quantities and storage types", CG+"unit_type.rs"), ("value_in", CG+"quantity_type.rs")],
 ["stored value and dimension of the constructed quantity; value_in"])

prop("C05", "Unit, constant and dimension definitions evaluate to their mathematical value",
 """For every unit system, each unit's and constant's conversion factor and dimension, and each derived dimension, equal the value of its defining expression under the usual rules:
 * and / (and juxtaposition as multiplication) are left-associative with equal precedence, ^ binds tighter, parentheses group, integer (and with rational-dimensions rational, possibly negative) powers apply to
 both factor and dimension, numbers are plain factors, base units have factor 1 and the dimension they are declared for.
 The result does not depend on the order in which definitions appear.""",
 ["programs", "configurations"], "all well-formed unit systems, statement orders and definition expressions",
 "Tests define three or four fixed systems; expression evaluation and dependency resolution range over unboundedly many systems.",
 ["crates/diman_unit_system/src/parse/mod.rs", "crates/diman_unit_system/src/types/expression.rs", "crates/diman_unit_system/src/dimension_math.rs", "crates/diman_unit_system/src/resolve/ident_storage.rs"],
 [("expression parser", "crates/diman_unit_system/src/parse/mod.rs"), ("Expr::eval over dimensions and magnitudes", "crates/diman_unit_system/src/types/expression.rs"), ("topological resolution", "crates/diman_unit_system/src/resolve/ident_storage.rs")],
 ["Magnitude and dimension of every generated unit, constant and dimension alias"])

prop("C06", "Prefixes, aliases and symbols expand to exactly the promised units",
 """#[prefix(...)] and #[metric_prefixes] (minus its skip list) generate for the unit and for each of its aliases exactly one unit per requested prefix, named prefix+name, with the SI factor of that prefix times the unit's factor
 and the same dimension, and #[alias] generates units identical to the original; the unprefixed unit is unchanged and nothing that was not requested is generated.
 The symbol of a prefixed unit is the SI prefix symbol followed by the unit's symbol and is attached to the unaliased unit only; units without a symbol give no symbols.""",
 ["programs"], "all combinations of prefixes, skip lists, aliases and symbols on base and derived units",
 "Tests check kilo/centi on one or two units; 16 prefixes times aliases, skip lists and symbols are not enumerated, and absence of unrequested units is not tested.",
 ["crates/diman_unit_system/src/types/prefixes.rs", "crates/diman_unit_system/src/types/mod.rs", "crates/diman_unit_system/src/parse/attributes.rs"],
 [("UnitTemplate::expand", "crates/diman_unit_system/src/types/mod.rs"), ("prefix table", "crates/diman_unit_system/src/types/prefixes.rs")],
 ["names in the generated units module, their factors, serde symbol lookup"])

prop("C07", "Malformed unit systems are rejected with a diagnostic, never accepted",
 """A unit_system! invocation that is malformed - undefined, duplicate or recursive identifiers, duplicate symbols, wrong kinds of identifiers in a definition, several or misplaced base units, base units without
 symbol, repeated or missing quantity_type/dimension_type, unknown, repeated, unused or malformed attributes, unknown prefixes, non-unit numbers in dimension definitions, syntax errors - fails to compile
 with an error that points into the invocation or at it. The macro terminates and does not panic on any input whose exponents fit into an i32, and well-formed systems produce no error.""",
 ["programs", "inputs"], "all well-formed systems with one or more faults injected, and arbitrary token soup",
 "trybuild cases pin one hand-written example of some error classes; faults can occur at any position, in combination with prefixes, aliases, order and other definitions.",
 ["crates/diman_unit_system/src/resolve/mod.rs", "crates/diman_unit_system/src/resolve/ident_storage.rs", "crates/diman_unit_system/src/resolve/error.rs", "crates/diman_unit_system/src/parse/mod.rs", "crates/diman_unit_system/src/parse/attributes.rs"],
 [("filter_undefined, filter_multiply_defined, check_kinds_in_definitions, resolve", "crates/diman_unit_system/src/resolve/ident_storage.rs"), ("attribute parsing", "crates/diman_unit_system/src/parse/attributes.rs")],
 ["rustc diagnostics (level, span, message) for generated invocations"])

prop("C08", "A dimension annotation is accepted if and only if it matches exactly",
 """A unit or constant statement annotated with a dimension compiles if and only if the annotation names a defined dimension whose base-dimension exponents are exactly those of the defining expression
 (base dimensions that cancel to exponent zero count as absent). This holds whichever side has more base dimensions, for dimensionless annotations, and for prefixed and aliased units.""",
 ["programs"], "all systems with annotated units and constants, matching and near-miss annotations",
 "Two compile_fail tests use an annotation with a base dimension that is missing on the right; the equivalence is over all pairs of dimensions.",
 ["crates/diman_unit_system/src/dimension_math.rs", "crates/diman_unit_system/src/resolve/ident_storage.rs"],
 [("BaseDimensions equality", "crates/diman_unit_system/src/dimension_math.rs"), ("check_type_annotations", "crates/diman_unit_system/src/resolve/ident_storage.rs")],
 ["acceptance or rejection of generated systems"])

prop("C09", "Conversion factors are represented exactly over the whole f64 range",
 """Every finite f64 conversion factor (positive, negative, subnormal, huge) survives the compile-time encoding unchanged: encoding and decoding gives back the same bits, distinct factors stay distinct,
 and multiplying or dividing factors, or factors and f32/f64 numbers, gives the same result as the floating point operation on the decoded values.""",
 ["inputs", "programs"], "all f64 bit patterns of finite numbers and pairs of them; unit systems with extreme factors",
 "The only test samples values between 0 and 100 and powers of two between 2^-50 and 2^50.",
 ["crates/diman_lib/src/magnitude.rs", CG+"units_and_constants.rs"],
 [("integer_decode / into_f64", "crates/diman_lib/src/magnitude.rs")], ["Magnitude::from_f64/into_f64/into_f32 and its operators"])

prop("C10", "Rational exponents behave as canonical fractions",
 """With rational-dimensions, exponents are exact fractions in lowest terms with a positive denominator: equal fractions are the same exponent however they were written or computed (2/4, -1/-2, sqrt followed by squared, products that cancel),
 their sum, difference, negation, product and quotient are those of the rational numbers, and their printed form is num or num/denom in lowest terms.
 Two expressions whose exponents are equal as fractions therefore have the same type.""",
 ["inputs", "programs"], "all fractions (within i64) and sequences of operations on them; all rational-exponent unit systems",
 "Tests use sqrt of one dimension; canonicity under every route (signs, common factors, cancellation) is not covered.",
 ["crates/diman_lib/src/ratio.rs", CG+"dimension_type.rs", "crates/diman_unit_system/src/parse/mod.rs"],
 [("Ratio::new normalisation and arithmetic", "crates/diman_lib/src/ratio.rs")], ["Ratio num/denom/Display; type equality in generated programs"])

prop("C11", "rational-dimensions is a conservative extension",
 """Every unit system and program (that names its dimensions instead of spelling out the fields of a dimension value, whose type differs) that compiles without rational-dimensions also compiles with it, with the same dimensions, the same conversion factors up to rounding, and the same results, text and parse results;
 the same ill-dimensioned operations stay rejected. In addition rational powers and roots of any dimension become available, with the exact fractional exponents.""",
 ["programs", "configurations"], "all programs accepted in integer mode, compiled in both modes",
 "CI runs one fixed test suite in both modes; no program outside it is compared.",
 [CG+"dimension_type.rs", "crates/diman_lib/src/ratio.rs", "crates/diman_lib/src/dimension_exponent.rs", CG+"serde.rs"],
 [("two implementations of exponent arithmetic behind the feature", CG+"dimension_type.rs")], ["program output in both configurations"])

prop("C12", "Debug output denotes exactly the quantity",
 """Formatting any quantity with {:?} never panics and prints the stored value as the storage type's Display does (honouring precision and other format options), followed by nothing for a dimensionless quantity without a symbol, or by the symbol of a unit with
 factor one and exactly the quantity's dimension if one is defined, or otherwise by the base unit symbols with their exponents, omitting exponent one and absent dimensions. Read as number times product of units, the text equals the quantity.""",
 ["inputs", "programs"], "all values, dimensions and unit systems",
 "Tests format three quantities of one system.",
 [CG+"debug_trait.rs", "crates/diman_lib/src/runtime_unit_storage.rs"],
 [("Debug impl over the runtime unit table", CG+"debug_trait.rs")], ["format!(\"{:?}\", q)"])

prop("C13", "Serialization round-trips every quantity",
 """Serializing any quantity with serde and deserializing it as the same type gives back the same stored value bit for bit (NaN stays NaN), for every storage type, dimension (including unnamed and rational ones), unit system and self-describing format, alone or nested in structs, options and collections.
 Deserializing the text as a quantity of a different dimension fails.""",
 ["inputs", "programs", "configurations"], "all values, storage types, dimensions, systems; YAML and JSON",
 "Tests serialize a few small numbers of one system and never feed the output back.",
 [CG+"serde.rs", CG+"debug_trait.rs"], [("Serialize via Debug text, Deserialize via visitor", CG+"serde.rs")], ["serde_yaml / serde_json round trip"])

prop("C14", "Deserialization accepts exactly the well-formed quantity texts",
 """Deserializing text of the form number (or parenthesised vector of exactly the right number of components) followed by whitespace-separated unit symbols with optional ^exponent (and any whitespace around it) yields the number times the product of the unit factors raised to their exponents if the product's dimension is the requested one, in any order and with repeated units.
 Text with another dimension, an unknown symbol, a malformed number, component count, exponent or bracket, trailing or leading junk, or no number gives an error. A bare number, as text or from a format that hands numbers to the reader (YAML; serde_json refuses by itself), is accepted exactly for dimensionless quantities, and no input causes a panic.""",
 ["inputs", "programs"], "all strings (structured and arbitrary), all symbols and exponents, scalar and vector targets",
 "Tests parse four fixed strings and two malformed ones.",
 [CG+"serde.rs", "crates/diman_lib/src/runtime_unit_storage.rs"], [("visit_str, read_unit_str, read_single_unit_str", CG+"serde.rs")], ["Result of Deserialize"])

prop("C15", "Vector methods act on the right components with the right dimension",
 """For quantities stored in glam vectors, new/new_x/new_y/new_z build, x/y/z read and set_x/set_y/set_z write exactly the named component and leave the others unchanged (new_x, new_y and new_z leave them zero); zero, min, max, abs, length, distance, distance_squared, normalize and dot
 equal glam's functions on the stored vectors, with dimension D, D, D, D, D, D, 2D, none and the sum of both dimensions respectively.""",
 ["inputs", "histories"], "all component values of Vec2, DVec2, Vec3, DVec3 and all sequences of accesses",
 "Tests use one or two vectors, with small positive components.",
 [CG+"vector_methods.rs", CG+"generic_methods.rs"], [("generated vector methods", CG+"vector_methods.rs")], ["results vs glam on raw vectors"])

prop("C16", "Comparisons, min/max/clamp and sign predicates agree with the stored values",
 """==, !=, <, <=, >, >= and partial_cmp between quantities (any mix of values and references) and between dimensionless quantities and numbers give what the stored values give, including NaN, infinities and signed zero;
 min, max, clamp, abs, is_positive, is_positive_or_zero, is_negative, is_negative_or_zero, is_nan and zero agree with the float operations of the same name or meaning (positive means > 0, negative means < 0).""",
 ["inputs"], "all pairs and triples of f32 and f64 values and all operand forms",
 "Tests compare a couple of ordinary numbers; ties, signed zeros, NaN and swapped arguments are not covered.",
 [CG+"num_traits/operator_trait.rs", CG+"float_methods.rs", CG+"generic_methods.rs"], [("PartialEq/PartialOrd impls", CG+"num_traits/operator_trait.rs"), ("float methods", CG+"float_methods.rs")], ["results vs raw floats"])

prop("C17", "Dimensionless math functions equal the float functions of the same name",
 """log2, ln, log10, exp, exp2, ceil, floor, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, exp_m1, ln_1p on a dimensionless quantity return a dimensionless quantity holding the value the function of that name returns for the stored number
 (the selected math library's function: std, or libm through num-traits-libm), for f32 and f64, with std as well as with num-traits-libm in no_std. Dimensionless quantities also deref to, convert from and give back (value, value_ref) the stored number unchanged.""",
 ["inputs", "configurations"], "all f32/f64 arguments, all functions, std and libm configurations",
 "Tests evaluate each function at one or two points.",
 [CG+"float_methods.rs", CG+"quantity_type.rs", CG+"num_traits/mod.rs", "crates/diman_lib/src/lib.rs"], [("generated dimensionless methods", CG+"float_methods.rs")], ["results vs std functions"])

prop("C18", "Powers and roots compute the value that matches their dimension",
 """squared, cubed and powi::<N> (positive, zero and negative N) equal the float power of the stored value, sqrt and cbrt equal the float roots, for f32 and f64 in all std/no_std/libm configurations, with dimensions scaled by 2, 3, N, 1/2 and 1/3;
 hence sqrt(squared(x)) is |x| and cbrt(cubed(x)) is x up to rounding, in both value and type.""",
 ["inputs", "configurations"], "all values, exponents and feature configurations",
 "Tests use 2.0 and similar values with a few exponents.",
 [CG+"float_methods.rs", CG+"dimension_type.rs"], [("specific_float_methods", CG+"float_methods.rs")], ["results vs raw floats"])

prop("C19", "Random quantities follow the requested range exactly",
 """Sampling a quantity from a range a..b or a..=b, or from a Uniform built over quantities, with any random generator gives exactly the value that rand's sampler for raw floats gives over the same bounds with the same generator state, so it lies in [a, b) or [a, b] and advances the generator identically;
 invalid ranges are refused exactly when they are for raw floats.""",
 ["inputs", "histories"], "all float bounds and generator states, half-open and inclusive ranges, f32 and f64",
 "The test draws 100 samples from one range with a thread rng.",
 [CG+"rand.rs"], [("UniformSampler for UniformQuantity", CG+"rand.rs")], ["samples vs rand's UniformFloat with the same seed"])

prop("C20", "MPI transfer preserves quantities",
 """Packing and unpacking, or sending a process to itself, quantities of any supported storage type - single values, slices and structs containing them - transfers every value bit for bit and is interchangeable with the raw storage type: the MPI datatype of a quantity has the same size, extent and contents as that of its stored value.""",
 ["inputs"], "all values, storage types and buffer lengths (single process)",
 "Tests pack one value of each type.",
 [CG+"mpi.rs", CG+"storage_types.rs"], [("Equivalence impls", CG+"mpi.rs")], ["pack/unpack and self-messages on MPI_COMM_WORLD"])

prop("C21", "HDF5 storage preserves quantities",
 """The HDF5 type of a quantity is that of its stored value (float of the same width, fixed array of the vector's components), so that datasets of quantities can be written and read back bit for bit, read as raw values, and raw datasets read as quantities, for every storage type.""",
 ["inputs"], "all values, storage types and dataset lengths",
 "There is no HDF5 test at all.",
 [CG+"hdf5.rs", CG+"storage_types.rs"], [("H5Type impls", CG+"hdf5.rs")], ["type_descriptor and datasets in an in-memory file"])

prop("C22", "The predefined SI module matches the SI",
 """Every unit in the predefined SI system - all names, aliases and metric prefixes - has the conversion factor and dimension that the SI (or the cited definition of the accepted unit) assigns to it, is reachable under each of its names, has its official symbol for text input and output where one is defined, and every named dimension has the dimension vector of the physical quantity of that name.""",
 ["inputs"], "all units, prefixes, aliases, symbols and dimensions of the SI module (finite, enumerated) with generated values",
 "Tests touch a few of about a thousand generated units.",
 ["src/si.rs", "crates/diman_unit_system/src/types/prefixes.rs"], [("SI catalogue", "src/si.rs")], ["factor and dimension of each unit constant; symbols via serde"])

prop("C23", "Every valid feature combination builds and gives the same behaviour",
 """For every combination of cargo features in which serde and the crates that need std are used with std and rational-dimensions is used with std or num-traits-libm, the crate and user-defined systems compile, offer exactly the storage types and integrations selected, and compute the same results;
 with std disabled the crate works in a program that does not link std. rational-dimensions without std or libm is refused with a clear error.""",
 ["configurations", "programs"], "all subsets of the cargo features",
 "CI builds five feature sets out of thousands.",
 ["Cargo.toml", "src/lib.rs", "crates/diman_lib/src/lib.rs", CG+"storage_types.rs", CG+"float_methods.rs", "crates/diman_lib/src/dimension_exponent.rs"], [("cfg gating across three crates", "src/lib.rs")], ["cargo build and a generated program per feature set"])

prop("C24", "A quantity is its stored value and nothing else",
 """A quantity has the size, alignment and bit pattern of its storage type for every storage type and dimension, so slices and buffers can be reinterpreted; new_unchecked and value_unchecked (and their reference and const forms) are exact inverses, Clone, Copy and Default act as on the storage type,
 and none of this depends on the unit system or feature set.""",
 ["inputs", "configurations"], "all storage types (including non-float ones), dimensions and bit patterns",
 "Not tested beyond value equality.",
 [CG+"quantity_type.rs"], [("repr(transparent) struct and unchecked accessors", CG+"quantity_type.rs")], ["size_of, align_of, bit patterns"])

prop("C25", "Unit systems are self-contained: any names, any number, any place",
 """The quantity and dimension types may be given any type name that does not hide a name of Rust's prelude or of the items that the macro generates (names of generic parameters of the generated code are listed as known findings), base dimensions, units, constants and symbols any valid identifiers
 (base dimensions with distinct snake case forms, and none of the names that the macro reserves for generated items), and several systems may coexist in one crate, in any module nesting, without interfering; nor do imports (globs included) and items of the surrounding module interfere, unless they hide names of Rust's prelude, primitive types, macros or the crate diman, or are constants and statics named like local variables of the generated code; renaming the identifiers of a system consistently changes nothing else about it (but which of several equivalent coherent symbols a text uses),
 and the quantity types of distinct systems are distinct types that cannot be mixed.""",
 ["programs"], "all systems and consistent renamings of them, all sets of coexisting systems, all surrounding modules",
 "Every test system uses the names Quantity and Dimension, one system per module.",
 [CG+"unit_type.rs", CG+"units_and_constants.rs", CG+"serde.rs", CG+"vector_methods.rs", CG+"mod.rs", "crates/diman_unit_system/src/types/base_dimension.rs"], [("generated code refers to user-chosen names", CG+"units_and_constants.rs")], ["compilation and output of renamed systems"])

prop("C26", "Any history of mutations leaves quantities equal to mirrored raw values",
 """After any sequence of in-place and functional operations on a collection of quantities - compound assignment from values, references and scalars, component writes, negation, summation, swapping, sorting by comparison, conversion through units and back - each quantity holds exactly the value that the same sequence leaves in a mirrored collection of raw storage values,
 and no operation changes any operand other than its target.""",
 ["histories", "inputs"], "all finite operation sequences and operand values for f32, f64, Vec2, DVec2, Vec3, DVec3",
 "Unit tests apply a single operation to fresh values.",
 [CG+"num_traits/operator_trait.rs", CG+"num_traits/mod.rs", CG+"vector_methods.rs", CG+"unit_type.rs"], [("assignment operator impls, Sum, setters", CG+"num_traits/operator_trait.rs")], ["full state after every step"])

prop("C27", "Expanding a unit system is a function of its text",
 """What unit_system! makes of an invocation depends on nothing but its tokens: every compilation, in any process, generates the same code in the same order for a well-formed system, and for a malformed one the same diagnostics at the same places in the same order.
 White space, line breaks and comments between the tokens of a well-formed system make no difference to the generated code. Builds are therefore reproducible, and choices that are left to the macro (such as which of several coherent symbols a quantity prints) are the same from build to build.""",
 ["programs", "schedules"], "all invocations, well-formed and malformed, and all processes that expand them",
 "A test sees one expansion, in one process; hash seeds differ between processes.",
 ["crates/diman_unit_system/src/dimension_math.rs", "crates/diman_unit_system/src/resolve/ident_storage.rs", "crates/diman_unit_system/src/resolve/mod.rs", CG+"debug_trait.rs"], [("name resolution and its collections", "crates/diman_unit_system/src/resolve/ident_storage.rs"), ("ordering of generated items", CG+"units_and_constants.rs")], ["the expanded code and rustc's diagnostics"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
