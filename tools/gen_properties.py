"""writes /verif/properties.jsonl (the source of truth for the property texts)"""
import json, os
P = []
S, D, M, IO, CAT, CFG, SET = ("src/dispersion/spectrum.py", "src/dispersion/spectral_data.py",
    "src/dispersion/material.py", "src/dispersion/io.py", "src/dispersion/catalogue.py",
    "src/dispersion/config.py", "src/dispersion/scripts/setup_dispersion.py")

def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Spectral conversions obey the physical laws for every quantity, unit and shape",
  "Converting a spectrum between any two supported quantity/unit pairs (wavelength in m, cm, um, nm, angstrom; frequency in Hz; energy in eV; angular frequency in 1/s; wavenumber in 1/cm), under any accepted spelling or letter case of the unit, yields the value required by lambda = c/f = hc/E = 2*pi*c/omega = 2*pi/k, within 1e-9 relative error or the rounding steps of 1e-9 eV (energy) and 1e-15 m (wavelength). "
  "Zero and infinity convert into each other, and a float, list, tuple, float array or integer array converts element by element to the same values, keeping length and order.",
  ["inputs"], "all positive values over many decades plus 0 and inf, all ordered pairs of quantity/unit, all unit spellings and cases, all container kinds and lengths",
  "The tests convert two or three hand-picked values into wavelength and mostly only call the reverse conversions without looking at the result; they never compare scalar with array, never use integers, extreme magnitudes or most units.",
  [S], [("conversion to and from the standard wavelength/metre representation", S), ("guarded inverse", S)],
  ["Spectrum(...).standard_rep", "Spectrum.convert_to", "safe_inverse"],
  [("standard_rep", "the spectrum as wavelength in metres", S + " Spectrum")])

p("C02", "A Spectrum denotes the same physical spectrum through any conversion history",
  "After any sequence of in-place and returning conversions a Spectrum still denotes the physical spectrum it was created with: its stored values, quantity label and unit label (also as shown for axes) agree with one another, and every later conversion or containment test gives what the original would have given, with no drift accumulating. "
  "A conversion that is not in place leaves the object exactly as it was, and a refused conversion leaves it unchanged.",
  ["histories", "inputs"], "all sequences of conversions (in place, returning, refused) on all spectra",
  "No test performs even one in-place conversion; drift and label/value disagreement need multi-step histories.",
  [S], [("in-place update of values, type and unit", S + " Spectrum.convert_to")],
  ["Spectrum.values/spectrum_type/unit", "Spectrum.convert_to", "Spectrum.contains"])

p("C03", "Invalid quantity/unit combinations are always refused",
  "A quantity or unit name that is not supported, or a unit that belongs to a different quantity, is refused with a ValueError wherever it is given: when creating a spectrum, converting one, creating constant, tabulated or model data, or querying a material. "
  "A dispersion model is also refused when it is declared in a quantity or unit other than the one its formula is written in (micrometres for the optical formulas, eV for the permittivity models), and values that are neither a float nor a sequence are refused.",
  ["inputs"], "all pairs of quantity name and unit name (valid, invalid, mismatched, any case), all entry points",
  "No test uses an invalid or mismatched unit at all.",
  [S, D, M], [("unit standardisation", S + " Spectrum.standardise_unit"), ("model unit check", D + " Model.validate_spectrum_type")],
  ["Spectrum(...)", "Spectrum.convert_to", "model constructors", "Material.get_nk_data/get_permittivity"])

p("C04", "Data are never evaluated outside their validity range, and always inside it",
  "Evaluating constant, tabulated, model or material data (real and imaginary part together) raises ValueError if any requested value lies outside the validity range of the data, in whatever quantity and unit the request or the data are expressed and wherever the offending value stands in the request. "
  "If every requested value lies inside the range, its own end points included, the evaluation succeeds; the containment test of two spectra follows the same rule.",
  ["inputs"], "all data kinds, ranges, request quantities/units, request shapes and positions of the offending value, values within 1e-6 relative distance of the end points on either side, and the end points themselves",
  "The only range test is one containment that holds; no test requests an out-of-range value, an end point in another quantity, or a mixed batch.",
  [S, D, M], [("containment test before evaluation", S + " Spectrum.contains"), ("evaluate of each data class", D)],
  ["SpectralData.evaluate", "Material.get_nk_data", "Material.get_permittivity", "Spectrum.contains"])

p("C05", "Tabulated data are interpolated faithfully",
  "A material or data set defined by a table returns the tabulated value at every tabulated point, and between two neighbouring points the linear interpolation in the table's own quantity and unit, whatever quantity or unit the query uses, however many rows the table has and in whatever order they are given; a material given by a one-row table is constant at that point. "
  "When an interpolation order is requested, the interpolant of that order is used: it still passes through every point and reproduces polynomials up to that degree.",
  ["inputs"], "all tables of distinct spectral values (1 to thousands of rows, any order, any quantity/unit, integer or float), all query points, units and interpolation orders",
  "One test evaluates a two-row table at its two ends; no interior point, no other unit, no order, no material-level table.",
  [D, M], [("interpolation object", D + " Interpolation"), ("table to data conversion", M + " Material._process_table/_spec_data_from_table")],
  ["Interpolation.evaluate", "Material.get_nk_data", "Material.get_permittivity"])

p("C06", "Every dispersion model computes its published formula",
  "For all parameters and every point of its range, each model (Sellmeier, Sellmeier-2, Polynomial, RefractiveIndex.INFO, Cauchy, Gases, Herzberger, Retro, Exotic = refractiveindex.info formulas 1-9 with any number of terms; Drude, Drude-Lorentz, Tauc-Lorentz permittivity with positive imaginary part for loss; Fano profile) returns the value of its published formula, whatever quantity or unit the query is expressed in and whether it is a scalar or an array. "
  "The Tauc-Lorentz real part is the Kramers-Kronig transform of its imaginary part plus the high-frequency limit, and the result is finite at every energy of a range above zero, the band gap included.",
  ["inputs"], "all models, term counts, parameter values for which the formula is defined, query points and query units",
  "The tests evaluate Sellmeier at one point (tolerance 1e-3) and Drude at one point; the test file itself says unit tests for all models are to do.",
  [D, M], [("evaluate of each model class", D), ("formula number to model mapping", M + " Material._process_formula_data")],
  ["<Model>.evaluate", "Material(model_kw=...)", "Material(file_path=...) with formula data"])

p("C07", "Batch evaluation equals point-by-point evaluation",
  "Evaluating any data set or material on an array of n values returns n values, and each equals (to floating-point accuracy) the result of evaluating that value alone as a scalar or as a one-element array, independent of the other elements, their order and repetitions. A grid of values (an array of any shape) gives a grid of results of the same shape, element by element the same. "
  "Lists, tuples, arrays and Spectrum objects describing the same values give the same answer.",
  ["inputs"], "all materials and data kinds including extrapolated ones and effective media, all arrays (sorted, unsorted, repeated, single element, thousands of elements, grids), all input containers",
  "Tests evaluate single scalars only, apart from one one-element list.",
  [D, M], [("vectorised evaluate methods", D), ("scalar/array handling", D + " Model.preprocess, Constant.evaluate, Extrapolation.evaluate")],
  ["SpectralData.evaluate", "Material.get_nk_data", "Material.get_permittivity"])

p("C08", "Refractive index and permittivity of a material always agree",
  "For every material, however it is defined (fixed, tabulated or modelled index or permittivity, or independently chosen real and imaginary parts), the permittivity equals the square of the complex refractive index at every point, the representation it was defined in is returned unchanged, and a part that was not given is zero. "
  "A passive material (non-negative imaginary permittivity) is reported with non-negative real and imaginary refractive index.",
  ["inputs"], "all material definitions, values and query points",
  "Two tests look at the refractive index of one fixed and one model material; permittivity is never compared with it.",
  [M], [("conversion between representations", M + " Material.get_nk_data/get_permittivity"), ("completion of missing parts", M)],
  ["Material.get_nk_data", "Material.get_permittivity"])

p("C09", "Queries are pure: they change nothing and can be repeated in any order",
  "Querying a material or data set never changes the caller's spectrum or arrays, the table or parameters the material was built from, the material itself or any other material, so repeating a query after any history of other queries, on the same or on other materials and from several threads at once, returns identical results. "
  "Building an effective medium or extrapolating one material likewise leaves the caller's spectrum and the other materials involved unchanged.",
  ["histories", "schedules"], "all interleavings of queries (also concurrent), range requests, writes, effective media and failing queries over a pool of live materials and shared spectra",
  "Tests make one query per material and never look at the arguments afterwards.",
  [D, M, S], [("evaluation on converted copies", D), ("effective media construction", M + " EffectiveMedium")],
  ["Spectrum arguments before/after", "Material.get_nk_data/get_permittivity/get_maximum_valid_range/prepare_file_dict"])

p("C10", "A material is built from exactly one well-formed source",
  "Creating a material with no data source or with more than one (file, fixed n, nk, eps_r or eps, table of n, nk, n+alpha or eps, model) is refused with ValueError; a source of the wrong type is refused with TypeError, a table with the wrong number of columns with ValueError, and an unknown model name with NameError. "
  "Each single well-formed source is accepted and gives a material of that kind, with the default quantity and unit of wavelength and nanometre unless stated otherwise; a source given as None counts as not given.",
  ["inputs", "configurations"], "all subsets of source arguments, None values, wrong types, all table shapes",
  "Tests create one fixed and one model material; no refused construction and no table is tested.",
  [M], [("argument validation", M + " Material._parse_args/_check_type/_check_table_shape")],
  ["Material(...)"])

p("C11", "Absorption-coefficient tables give k = alpha * lambda / (4*pi)",
  "A table of refractive index and absorption coefficient (in 1/cm) yields at each tabulated point n as tabulated and k = alpha*lambda/(4*pi), lambda being the wavelength in cm corresponding to the tabulated spectral value, for tables in any quantity and unit, given directly or in a file. "
  "Between tabulated points n and k are interpolated linearly.",
  ["inputs"], "all n+alpha tables, quantities, units and query points",
  "No test uses such a table.",
  [M, S], [("n_alpha handling", M + " Material._process_table")], ["Material.get_nk_data"])

p("C12", "The reported maximum valid range is where the material can be evaluated",
  "The maximum valid range of a material is the intersection of the ranges of its real and imaginary parts (or the range of its complex data), reported as [lower, upper] in the material's default quantity and unit; the material can be evaluated throughout it and evaluating beyond either end is refused. Where the parts have no range in common, no range is reported (lower exceeds upper) and every evaluation is refused. "
  "The sample spectrum offered for a material lies within this range, so the material can always be evaluated on it, and it covers the whole range when both ends are finite and non-zero.",
  ["inputs"], "all materials (tables, models, combinations of parts in different quantities and units, effective media, extrapolated), all default quantities/units",
  "The range is never queried in the tests.",
  [M], [("range intersection", M + " Material.get_maximum_valid_range"), ("sampling", M + " Material.get_sample_spectrum")],
  ["Material.get_maximum_valid_range", "Material.get_sample_spectrum", "SpectralData.suggest_spectrum"])

p("C13", "Extrapolation only extends the data",
  "After a material is extrapolated to one or two new values given in any quantity or unit, it can be evaluated up to exactly those values (the farther one where both lie on the same side) and no further, every value inside the original range is what it was before (also in requests that mix old and new range), and the curve continues the data: data that are a polynomial of at most the spline order (two unless given) continue as that polynomial. "
  "A target inside the existing range, more than two targets, or a material given as complex data is refused, leaving the material unchanged; constant parts stay as they are.",
  ["inputs", "histories"], "all tabulated and model materials, targets below/above/both, all target units, spline orders 1-5, repeated extrapolation, mixed requests",
  "Extrapolation is not tested.",
  [D, M], [("spline continuation", D + " Extrapolation"), ("per-part extrapolation", M + " Material.extrapolate")],
  ["Material.extrapolate", "Extrapolation.evaluate"])

p("C14", "Removing absorption removes the loss and nothing else",
  "After absorption is removed from a material with separate real and imaginary parts, its imaginary part (k or eps_i) is exactly zero at every point of the real part's range and its real part is unchanged; a material defined by complex data is left as it was. "
  "Repeating the operation changes nothing further, and other materials are unaffected.",
  ["inputs", "histories"], "all materials, query points, and sequences with extrapolation and queries",
  "Not tested.", [M], [("imaginary part replaced by constant zero", M + " Material.remove_absorption")],
  ["Material.remove_absorption", "Material.get_nk_data/get_permittivity"])

p("C15", "Effective media satisfy their mixing rules",
  "For two materials and a filling fraction f of the second one, the Simple medium has permittivity (1-f)*eps1 + f*eps2, the Maxwell-Garnett medium satisfies (eps-eps1)/(eps+2*eps1) = f*(eps2-eps1)/(eps2+2*eps1), and the Bruggeman medium satisfies its self-consistency equation with the passive (non-negative imaginary part) root, at every point of the given spectrum (scalar or array, any quantity and unit, any order). "
  "For f=0 and f=1 they reduce to the first and second material, and a fraction outside [0, 1] or a singular Maxwell-Garnett mixture is refused with ValueError.",
  ["inputs"], "all pairs of materials (lossless, absorbing, metallic), fractions including 0 and 1, spectra",
  "Not tested.", [M], [("mixing formulas and root choice", M + " Simple, MaxwellGarnett, Bruggeman")],
  ["EffectiveMedium.get_permittivity/get_nk_data"])

p("C16", "Writing a material to file and reading it back preserves its optical data",
  "A material defined by tables (n, k, nk, eps; any number of rows, any magnitude of values, any row order, any quantity and unit) or by a model, written to a .yml file, and one defined by a single table written to a .txt, .csv or .nk file, reads back as a material with the same representation, the same validity range and the same values everywhere, to at least 8 significant digits; so does constant data in a .yml file if the writer is told not to ignore it. "
  "A material that the chosen file type cannot represent (several data sets or a model in a text file, constant data other than zero that the writer ignores) is refused with ValueError instead of being written incompletely, and an existing file stays as it was.",
  ["inputs"], "all representable materials, all supported extensions, writer options",
  "File writing is not exercised by any passing test.",
  [IO, M, D], [("table formatting and parsing", IO), ("data set assembly", M + " Material.prepare_file_dict/dataset_to_dict/collapse_datasets"), ("writers", IO + " Writer")],
  ["Writer(path, material).write_file()", "Material(file_path=...)", "Reader(path).read_file()"])

p("C17", "Metadata survive write/read cycles unchanged",
  "Reference, author, name, full name and comment (any text on one line, non-ASCII characters, colons and unusual white space such as form feeds or U+2028 included; in .yml also several lines and specifications, whose values may come as numpy values) and the free multi-line leading comment are read back exactly as they were set, except for surrounding white space, from every supported file type, whatever the locale of the process. "
  "A material which nobody described has empty metadata. Fields of the user's own are written to .yml files under their name with their value and do not prevent reading. Repeating the write/read cycle any number of times changes neither metadata nor data any further.",
  ["inputs", "histories"], "all metadata texts, all extensions, repeated cycles",
  "File writing and reading of metadata are not exercised by any passing test.",
  [IO, M], [("header writing and parsing", IO + " Writer._write_text_file, Reader._read_text_file"), ("leading comment", IO + " prepend_text_to_file")],
  ["Writer(...).write_file()", "Material(file_path=...).meta_data"])

p("C18", "Documented data files load to exactly what they say",
  "A file in the documented text format (.txt white-space separated, .csv comma separated, .nk with ';' comments; 2 or 3 columns; optional header of metadata and comments in any order, key letter case ignored, colons allowed in values) or YAML format (package keys or refractiveindex.info keys, tables and formulas 1-9 or named models, top-level keys in any letter case, other keys (also of data sets) ignored, one or more data sets in any order) loads into a material with exactly that data, range, quantity, unit and metadata, whatever the locale of the process. "
  "Quantity and unit stated in the file take precedence over the caller's defaults, which apply where the file states none.",
  ["inputs"], "all files generated from the documented grammar: number formats, row counts, header orders, line endings, data set combinations",
  "The three file-loading tests need data files that are not in the repository and fail.",
  [IO, M], [("readers", IO + " Reader"), ("file data processing", M + " Material._process_file_data")],
  ["Material(file_path=...)", "Reader(path).read_file()"])

p("C19", "Unusable files are refused and unusable rows are dropped predictably",
  "A file with an unsupported extension, a missing file, a data set of unknown type, an unknown or unsupported model or formula number, a model whose stated unit is not the one its formula needs, data sets that cannot be combined (refractive index with permittivity, a model of the complex permittivity with another data set), non-numeric table content, coefficients or range, a text that is not valid YAML, a file without any data, rows of unequal length or a single column (in text files also more than three) is refused with an exception and never yields a material. "
  "The rows of a table may stand in any order; a row that repeats the spectral value of an earlier row is dropped, and all other rows are kept unchanged.",
  ["inputs"], "all corruptions of valid files from a catalogue of mutations, all tables with unordered or repeated spectral values",
  "No test reads an invalid file.",
  [IO, M], [("extension and type dispatch", IO + " Reader.read_file"), ("row filter", IO + " validate_table/fix_table")],
  ["Material(file_path=...)", "Writer(...)"])

p("C20", "The catalogue lists every data file once, truthfully",
  "Building the catalogue yields exactly one row for each readable data file of each enabled module (every .txt, .csv and .yml file of the user data folder; every page of the refractiveindex.info library whose file exists, missing ones being skipped with a warning) and none for other files; each row's module, path, names, author, comment and reference match the file, its bounds are the material's valid range in the row's own quantity and unit, and its reference n and k are the material's values at the configured reference spectrum, or blank where that lies outside the range. "
  "Loading row i returns the material stored in that row's file, evaluating identically to loading the file directly.",
  ["inputs", "configurations", "fault_sequences"], "all database trees (file kinds, units, names, missing and extra files), module selections and reference spectra",
  "The catalogue tests need a git clone from the network and fail; nothing of the catalogue is exercised.",
  [CAT, M], [("module readers", CAT + " Catalogue.read_ri_info_db/_read_text_db"), ("row lookup", CAT + " Catalogue.get_material")],
  ["Catalogue(config, rebuild=...).get_database()", "Catalogue.get_material(int)"])

p("C21", "The catalogue survives saving, reloading and partial rebuilding",
  "Saving a catalogue and opening it again yields the same rows in the same order with the same contents, aliases included, for any text in its fields (commas, quotes, line breaks, non-ASCII, words such as NA or nan, leading zeros) and with blank reference values staying blank. "
  "Rebuilding selected modules refreshes exactly the rows of those modules to what a full build gives and keeps every row of the other enabled modules unchanged; rebuilding a disabled module by name is refused, and opening without rebuilding never changes the file.",
  ["histories", "inputs", "configurations"], "all catalogue contents and sequences of save, reopen, edit and rebuild of all or selected modules",
  "No catalogue test can run offline.",
  [CAT], [("csv persistence", CAT + " Catalogue.save_to_file/__init__"), ("module-wise rebuild", CAT + " Catalogue.build_catalogue")],
  ["catalogue file", "Catalogue.get_database()"])

p("C22", "Aliases are unique and always find their material",
  "Over any history of alias registrations (by row number or by a one-row selection), saves, reopens, and replaced or reordered tables, no two rows ever share a non-empty alias, an attempt to reuse another row's alias or to name a row that does not exist or is not unique or a selection that is not exactly one row is refused with ValueError and changes nothing, and a successful registration changes only that row's alias. "
  "Looking up a registered alias returns the material of exactly the row that holds it, and looking up an unknown alias, or anything that is neither text nor integer, is refused with ValueError.",
  ["histories", "inputs"], "all operation sequences and alias strings",
  "No catalogue test can run offline; the intended one only registers distinct aliases.",
  [CAT], [("alias registration", CAT + " Catalogue.register_alias"), ("alias lookup", CAT + " Catalogue.get_material")],
  ["Catalogue.register_alias", "Catalogue.get_material(str)", "Catalogue.get_database()", "Catalogue.set_database()"])

p("C23", "Configuration is stored, found, defaulted and validated reliably",
  "A configuration written to the user's configuration directory is read back unchanged by later look-ups, a user configuration takes precedence over the packaged one, and when none exists the defaults are returned with the user's configuration directory as path; importing the package and getting defaults work for a user whose configuration directory does not exist yet; a file that is not valid YAML is never taken for a configuration. "
  "A configuration is accepted for a catalogue exactly when its path is an existing directory, its file name is a plain valid file name, its switches are booleans, its module switches are booleans and its reference spectrum consists of a float, a quantity and a unit; checking it creates, changes or deletes no file.",
  ["configurations", "inputs"], "all configurations, single-field corruptions, home directory states",
  "Tests only call the defaults once, in a prepared home directory.",
  [CFG, IO, CAT], [("config location and defaults", CFG), ("validation", CFG + " validate_config, check_type"), ("file name test", IO + " valid_file_name")],
  ["get_config/default_config/write_config/read_config/validate_config", "import dispersion in a fresh process"])

p("C24", "The setup dialogue leaves a working database",
  "Whatever answers the user gives (defaults, new paths and names, repeated invalid answers, refusals, declined modules), the setup dialogue only ends after confirmed valid answers, and then the stored configuration is exactly what was confirmed, declined or unavailable modules are disabled (a database that is already in place, listed in library.yml or catalog-nk.yml, is available; a download that fails does not end the setup), the user data folder holds example files that load with their documented contents, and, if a rebuild was accepted, the catalogue file lists them. "
  "Rebuilding the catalogue from the command line writes it only after an explicit 'y', asks again after anything but 'y' and 'n', and changes nothing after 'n'.",
  ["inputs", "histories", "fault_sequences"], "all answer sequences, module choices, pre-existing directory states",
  "No test runs the dialogue.",
  [SET, CAT, CFG], [("dialogue", SET), ("example files", SET + " make_example_txt/make_example_yaml"), ("rebuild prompt", CAT + " rebuild_catalogue")],
  ["config.yaml", "catalogue file", "UserData folder", "prompts asked"])

p("C25", "Plots show the evaluated data",
  "Plotting the refractive index or the permittivity of a material draws exactly two curves, real and imaginary part, whose ordinates are the material's values at the plotted abscissae and whose abscissae are the requested values in the requested quantity and unit (or, by default, the material's sample spectrum in its default quantity and unit), on the requested axes, with the axis label naming that quantity and unit and the curves named n and k (eps_r and eps_i) in the legend and on the vertical axis. "
  "A single requested value is drawn as two horizontal lines at the real and imaginary value.",
  ["inputs"], "all materials and plot arguments",
  "Plotting is not tested.",
  [M, S], [("plot data preparation", M + " Material._plot_data/_prepare_plot_data"), ("axis label", S + " Spectrum.get_type_unit_string")],
  ["matplotlib axes after plot_nk_data/plot_permittivity"])

p("C26", "Material equality is a total, symmetric comparison of metadata and kind",
  "Comparing two materials never raises: they are equal exactly when all their metadata fields and their representation (refractive index or permittivity) are the same, in both directions, however they were created; a material equals itself and the copy obtained by loading the same file again. "
  "A material is never equal to an object that is not a material.",
  ["inputs"], "all pairs of materials (fixed, tabulated, modelled, loaded from file) and other objects",
  "Not tested.", [M], [("equality", M + " Material.__eq__")], ["Material == other", "other == Material"])

p("C27", "Interactive editing shows and stores exactly the catalogue",
  "With interactivity enabled, viewing and editing the catalogue present exactly its current table, read-only for viewing and editable for editing; changes made in the grid reach the catalogue only through save_interactive, after which the table is exactly what the grid shows, can be saved to file and finds the aliases entered. "
  "With interactivity disabled, viewing, editing and saving interactively are refused with ValueError and change nothing, and opening an interactive catalogue without the grid package installed is refused.",
  ["histories", "configurations"], "all sequences of viewing, editing, saving, registering and reopening",
  "Interactive use is not tested.",
  [CAT], [("interactive access", CAT + " Catalogue.view_interactive/edit_interactive/save_interactive")],
  ["grid package calls", "Catalogue.get_database()", "catalogue file"])

p("C28", "Printed references and comments are the stored text",
  "Printing the reference or the comment of a material writes exactly that text with the characters that are not ASCII left out, followed by a line end, for any stored text and also on a terminal that only accepts ASCII; it changes nothing in the material.",
  ["inputs"], "all texts and output encodings",
  "Not tested.", [M], [("printing", M + " Material.print_reference/print_comment/utf8_to_ascii")],
  ["standard output"])

p("C29", "Objects are independent of the caller's arrays, dictionaries and files",
  "A spectrum, data set, material or effective medium leaves the arrays, lists, dictionaries and materials it is created from as they are, keeps its meaning when these are changed afterwards, when arguments of queries, converted values, results, ranges, sample spectra or file dictionaries it handed out are changed, when the file it was read from is changed or removed, and when other materials are changed: all its answers stay identical, and results handed out earlier stay what they were (no two of them share memory). A reader or writer can be used repeatedly: writing again gives the same file, reading again gives what a new reader gives.",
  ["inputs", "histories"], "all kinds of objects, all sequences of changes to caller-owned data between queries",
  "Tests never touch an array after handing it over; sharing shows only through later modification.",
  [S, D, M], [("copies of values and conversion results", S + " Spectrum.__init__/to_wavelength"), ("copies of tables and parameters", D + " Interpolation/Model"), ("per-object metadata", M + " Material.__init__")],
  ["Spectrum.values/convert_to", "SpectralData.evaluate", "Material queries", "Material.prepare_file_dict", "Material.get_maximum_valid_range"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
