HOOKS = {'guard': 'cfg(chanoma_verif)',
         'enable': 'RUSTFLAGS="--cfg chanoma_verif" (set by sa/build.py when it compiles /repo and the reference crate)',
         'source_commits': ['04a7010']}

REL = 'relational abstract interpretation of MIR (implementation against reference, fixpoint)'
CONST = 'interprocedural constant propagation over MIR, compared with Unicode-derived tables'
TRUST = ('Trusts the transformers for the standard library in sa/models.py and rustc\'s lowering to MIR. An obligation '
         'the analysis cannot decide is reported as UNDECIDED in the evidence and does not fail the check.')
ALL = 'Fixpoint over an abstract domain: covers every input of every length. ' + TRUST

PROPS = [
    dict(id='C01', title='Both ways of running a normalisation give the same text',
         statement='For every pipeline with at least one step and every input text, the final text of a run that records '
                   'intermediate results equals the text of the plain run. This holds for each kind of step on its own and '
                   'whatever the log level is.',
         over=['inputs', 'configurations'], forall='every pipeline with at least one step, every text, every log level',
         why='The tests compare the two runs on a few short texts per step; the step implementations are written twice, so '
             'agreement has to hold for every text.',
         files=['src/chanoma.rs', 'src/modifier_kind.rs', 'src/modifier.rs', 'src/modifier/'],
         mech=[('plain and recording run of the pipeline', 'src/chanoma.rs'),
               ('dispatch to the two implementations of a step', 'src/modifier_kind.rs'),
               ('two implementations of each step', 'src/modifier/*.rs')], hook='modules modifier and modifier_kind',
         technique=REL, note=ALL + ' The one-to-one character converter is compared in C03.'),
    dict(id='C02', title='A pipeline applies its steps once each, in the order they were added',
         statement='Normalising applies every configured step exactly once, in the order the steps were added, each to the '
                   'output of the step before; a pipeline without steps returns the text unchanged. Adding the preset, '
                   'neologdn or a table appends exactly that one step at the end and leaves the earlier steps alone, and '
                   'each step runs the modifier it was made from.',
         over=['inputs', 'configurations', 'histories'], forall='every sequence of builder calls, every pipeline length, every text',
         why='Tests build pipelines of one or two steps; order and multiplicity must hold for every length and step kind.',
         files=['src/chanoma.rs', 'src/modifier_kind.rs'],
         mech=[('fold over the steps', 'src/chanoma.rs'), ('builder methods', 'src/chanoma.rs'),
               ('dispatch over the kinds of step', 'src/modifier_kind.rs')], hook='modules modifier and modifier_kind',
         technique=REL + ' with modifier steps as uninterpreted functions', note=ALL),
    dict(id='C03', title='The character converter maps every character by its table, one for one',
         statement='Converting a text gives a text of as many characters, in which the n-th character is the image of the '
                   'n-th character under the converter\'s table, and the character itself where the table does not list it; '
                   'images are not converted again. The recorded run gives the same text. A converter made from tables maps '
                   'the first character of each source to the first character of its target, entries with an empty side are '
                   'ignored, and a later entry for a character wins.',
         over=['inputs', 'configurations'], forall='every text, every table, every position',
         why='Tests use short texts with one or two listed characters; repeats, swaps and chains of entries must all work.',
         files=['src/modifier/character_converter.rs'],
         mech=[('conversion', 'src/modifier/character_converter.rs'),
               ('construction from tables', 'src/modifier/character_converter.rs')], hook='module modifier',
         technique=REL, note=ALL + ' The two conversions themselves (obligations modify and records) are refuted, not proved: '
               'the merging pass leaves them undecided, the passes without merging look for a difference on texts of up to '
               'three characters.'),
    dict(id='C04', title='The character eliminator removes exactly the listed characters',
         statement='Eliminating a set of characters from a text removes every occurrence of each listed character and keeps '
                   'all other characters in their order, both in the plain and in the recorded run. With no listed character '
                   'the text is unchanged.',
         over=['inputs', 'configurations'], forall='every text and every list of characters (0, 1 and 3 symbolic entries)',
         why='Tests use a handful of texts; adjacent, leading and trailing occurrences and repeated entries must all work.',
         files=['src/modifier/character_eliminator.rs'],
         mech=[('elimination', 'src/modifier/character_eliminator.rs')], hook='module modifier',
         technique=REL, note=ALL),
    dict(id='C05', title='The consecutive character reducer collapses runs of its character only',
         statement='Reducing a character replaces every run of that character by a single one and leaves every other '
                   'character in place, both in the plain and in the recorded run.',
         over=['inputs', 'configurations'], forall='every text and every character',
         why='Runs can be anywhere and of any length; tests contain a few.',
         files=['src/modifier/consecutive_character_reducer.rs'],
         mech=[('run reduction', 'src/modifier/consecutive_character_reducer.rs')], hook='module modifier',
         technique=REL, note=ALL),
    dict(id='C06', title='A half-width space survives only between two ASCII alphanumerics',
         statement='After the dotted-space step, a half-width space is left exactly where one or more spaces separated two '
                   'ASCII alphanumeric characters, as a single space; all other half-width spaces are gone and all other '
                   'characters are kept in order. The recorded run gives the same text.',
         over=['inputs'], forall='every text',
         why='The rule depends on the neighbours on both sides of runs of any length; tests sample a few.',
         files=['src/modifier/dotted_space_eliminator.rs'],
         mech=[('space elimination', 'src/modifier/dotted_space_eliminator.rs')], hook='module modifier',
         technique=REL, note=ALL),
    dict(id='C07', title='Trim removes leading and trailing half-width spaces and nothing else',
         statement='The trim step removes all half-width spaces at the beginning and at the end of the text and changes '
                   'nothing else, other white space included; a text of spaces only becomes empty. The recorded run gives '
                   'the same text.',
         over=['inputs'], forall='every text', why='Tests use a few texts with ASCII spaces.',
         files=['src/modifier/trim.rs'], mech=[('trimming', 'src/modifier/trim.rs')], hook='module modifier',
         technique=REL, note=ALL),
    dict(id='C08', title='The ligature translator replaces every occurrence of a sequence',
         statement='Translating with one entry replaces every non-overlapping occurrence of its sequence, from left to right, '
                   'by its replacement and leaves the rest of the text alone; with no entry the text is unchanged. The '
                   'recorded run gives the same text.',
         over=['inputs', 'configurations'], forall='every text, every sequence and every replacement',
         why='Tests use fixed kana pairs.',
         files=['src/modifier/ligature_translator.rs'],
         mech=[('replacement', 'src/modifier/ligature_translator.rs')], hook='module modifier',
         technique=REL, note=ALL + ' str::replace is trusted. Tables of several entries are covered by C19 (order) only.'),
    dict(id='C09', title='neologdn is its fixed sequence of steps with its fixed tables',
         statement='The neologdn step converts characters by the preset table without the equal sign plus the long-bar and '
                   'hyphen unifications, then reduces runs of the prolonged sound mark, removes dotted spaces, removes the '
                   'tilde-like characters, composes kana with a following sound mark, and removes dotted spaces again. The '
                   'recorded run gives the same result, and the kana compositions do not depend on the order they are tried in.',
         over=['inputs'], forall='every text; every entry of the tables',
         why='Tests cover a sample of texts; a wrong entry or a swapped step shows only on particular characters.',
         files=['src/modifier/neologdn.rs', 'src/characters_set.rs'],
         mech=[('sequence of steps', 'src/modifier/neologdn.rs'), ('tables', 'src/modifier/neologdn.rs')],
         hook='module modifier',
         technique='abstract interpretation with uninterpreted steps; ' + CONST, note=ALL),
    dict(id='C10', title='The preset maps exactly the intended full- and half-width characters',
         statement='The preset converts full-width letters, digits and punctuation and half-width katakana to their Unicode '
                   'compatibility equivalents, with the closing typographic quotes and the wave dash in place of the '
                   'full-width quotation mark, apostrophe and tilde, the ideographic space as a space, and the half-width '
                   'sound marks and prolonged sound mark left alone. It maps nothing else, it is the union of the four '
                   'public character groups, and each public named constant maps the character its name says.',
         over=['inputs'], forall='every Unicode character and every entry of the tables',
         why='The tables have 156 entries; tests look at a few characters.',
         files=['src/characters_set.rs', 'src/characters_set/', 'src/chanoma.rs'],
         mech=[('table constants and their union', 'src/characters_set/*.rs'), ('preset pipeline', 'src/chanoma.rs')],
         technique=CONST, note=TRUST),
    dict(id='C11', title='Tables combine as sets: sums keep every item once, differences drop the other',
         statement='Adding two tables gives every item of either table exactly once, sorted by source and then target; '
                   'subtracting gives, sorted, exactly the items of the first table that are not in the second, each as often '
                   'as the first lists it; items are compared by source and target. The operators, their assigning forms, Table::add and remove, and the '
                   'builder methods all do this; preset adds the preset table, a new builder is empty, and building returns '
                   'the table as it stands.',
         over=['inputs', 'histories'], forall='every pair of tables of any size, items repeated or not',
         why='Tests combine tables of one or two items.', files=['src/corr.rs', 'src/corr/', 'src/table.rs'],
         mech=[('operators', 'src/corr.rs'), ('table and builder', 'src/table.rs')],
         technique=REL, note=ALL),
    dict(id='C12', title='Configuration is CHANOMARC alone or else every documented place, in order',
         statement='Loading the configuration uses exactly the file named by CHANOMARC when it is set, and an error if that '
                   'is not an existing regular file of a supported kind. Otherwise every existing chanomarc and .chanomarc '
                   'file (csv and yaml) in ~/.config/chanoma, the home directory and the working directory is loaded, and '
                   'the steps of all of them are applied in this order: directory by directory, chanomarc before '
                   '.chanomarc, csv before yaml. A missing home or working directory is skipped, nothing found means no '
                   'steps, and a file that fails to load fails the whole load.',
         over=['configurations', 'fault_sequences'], forall='every environment and every set of existing, readable or failing files',
         why='Tests cannot vary the home directory and the twelve candidate files; they check the helper functions on '
             'single paths.',
         files=['src/configuration.rs', 'src/chanoma.rs', 'src/file_extension.rs'],
         mech=[('search', 'src/configuration.rs'), ('public entry point', 'src/chanoma.rs')], hook='module modifier_kind',
         technique=REL + ' over a symbolic environment and file system',
         note=ALL + ' Quick: the search over all twelve files without a home or without a working directory, and over six of '
              'them with both; thorough: all twelve.'),
    dict(id='C13', title='A configuration file is read by its extension; its steps come before its table',
         statement='A path ending in .csv is read as CSV and one ending in .yaml or .yml as YAML; any other extension, and '
                   'none, is an error. A CSV file gives exactly one step, the converter of its table. A YAML file gives the '
                   'steps it lists, in order, followed by one converter of its items.',
         over=['inputs', 'configurations'], forall='every path and every outcome of the readers',
         why='Tests load two files.', files=['src/configuration.rs', 'src/file_extension.rs', 'src/chanoma.rs'],
         mech=[('choice of the reader', 'src/configuration.rs'), ('extensions', 'src/file_extension.rs')],
         hook='module modifier_kind', technique=REL, note=ALL),
    dict(id='C14', title='A configuration that cannot be loaded is an error, not a panic or a partial one',
         statement='Whenever a file cannot be opened or parsed, a record or value has the wrong type, or a modifier name is '
                   'unknown, reading tables, modifiers, configuration files and the searched configuration returns an '
                   'error. It never panics and never carries on with the part that could be read. Where nothing fails, no '
                   'error is returned.',
         over=['inputs', 'fault_sequences', 'configurations'], forall='every content of every file, every failing operation',
         why='Tests check a missing file and one or two malformed values; the loaders accept arbitrary YAML and CSV.',
         files=['src/file.rs', 'src/modifier_kind.rs', 'src/modifier/', 'src/configuration.rs', 'src/table.rs'],
         mech=[('readers', 'src/file.rs'), ('conversion of YAML values', 'src/modifier_kind.rs'),
               ('fallible builders', 'src/table.rs')], hook='modules modifier and modifier_kind',
         technique=REL + ' over symbolic files', note=ALL),
    dict(id='C15', title='YAML modifiers become the steps they name, with all their values, in file order',
         statement='Every entry under modifiers gives one step, in the order of the file. The name selects the kind of step; '
                   'a converter and a ligature translator get every pair of their mapping, an eliminator every listed '
                   'character in order, a reducer its character, and the steps without parameters require a null value. A '
                   'file without modifiers gives no step.',
         over=['configurations'], forall='every YAML document',
         why='The tests load one file.', files=['src/file.rs', 'src/modifier_kind.rs', 'src/modifier/'],
         mech=[('list of modifiers', 'src/file.rs'), ('choice by name', 'src/modifier_kind.rs'),
               ('values', 'src/modifier/*.rs')], hook='modules modifier and modifier_kind',
         technique=REL + ' over symbolic YAML values', note=ALL),
    dict(id='C16', title='Every CSV record maps each of its fields but the last to the last',
         statement='Reading a CSV table skips the first (header) record; every further record of n fields gives n-1 items, '
                   'each of its first n-1 fields mapped to its last field, in the order of the file; records may have '
                   'different lengths. A builder made from a CSV path holds exactly that table, and adding a CSV file to a '
                   'builder adds its items to those already there.',
         over=['configurations'], forall='every CSV file', why='Tests read one file with records of two and four fields.',
         files=['src/file.rs', 'src/table.rs'], mech=[('reader', 'src/file.rs'), ('builder', 'src/table.rs')],
         technique=REL + ' over a symbolic sequence of records', note=ALL + ' The csv crate is trusted.'),
    dict(id='C17', title='Every YAML item is read, in both documented forms',
         statement='items may be a mapping from a target to one source or a list of sources, or a list of from/to pairs. '
                   'Every source listed gives one item mapped to its target, in the order of the file; a file without items '
                   'gives an empty table. A builder made from a YAML path holds exactly that table, and adding a YAML file '
                   'to a builder adds its items to those already there.',
         over=['configurations'], forall='every YAML document', why='Tests read one file.',
         files=['src/file.rs', 'src/table.rs'], mech=[('reader', 'src/file.rs'), ('builder', 'src/table.rs')],
         technique=REL + ' over symbolic YAML values', note=ALL + ' serde_yaml is trusted.'),
    dict(id='C18', title='Tables are written as one entry per target, holding every source',
         statement='A table written as CSV has one record per target, in ascending order of the targets: the sources of that '
                   'target in the order of the table, then the target; written as YAML it is a mapping items from each '
                   'target to its sources in the order of the table. No item is lost, added or changed, whatever its texts '
                   'are. A written CSV file read again gives the same items (a known finding: the header record is missing).',
         over=['inputs', 'configurations'], forall='every table, every text of its items',
         why='Tests write two small tables with plain texts.', files=['src/file.rs', 'src/corr.rs'],
         mech=[('CSV writer', 'src/file.rs'), ('YAML form', 'src/file.rs'), ('grouping by target', 'src/corr.rs')],
         technique=REL + ' over tables of arbitrary items; constant propagation through the derived serialiser',
         note='Tables of up to three (thorough: four) items with arbitrary texts; the texts are unbounded. The csv and '
              'serde_yaml crates are trusted to write what they are given. ' + TRUST),
    dict(id='C19', title='The same input gives the same result in every run, whatever the hash seed',
         statement='Hash tables are seeded afresh in every process; this never shows. Normalising a text with the same '
                   'configuration gives the same text and the same recorded positions (in text order) in every run, '
                   'ligature tables whose entries feed or overlap each other included, and sums and differences of tables '
                   'list the same items in the same order.',
         over=['schedules', 'inputs'], forall='every order of visiting hash tables, every text, every table',
         why='A test sees one order per run, and most orders give the same result for small tables.',
         files=['src/modifier/', 'src/corr.rs', 'src/position.rs'],
         mech=[('converter: positions by character', 'src/modifier/character_converter.rs'),
               ('ligatures: table order', 'src/modifier/ligature_translator.rs'),
               ('sums and differences', 'src/corr.rs')], hook='module modifier',
         technique='self-composition: relational abstract interpretation of a function against itself under opposite orders '
                   'of hash iteration; call-graph query for functions that visit no hash table',
         note='Holds for every text for the steps without hash iteration, for the ligature translator with two arbitrary '
              'entries and for sums and differences of tables of any size. The converter is refuted, not proved: texts of up '
              'to three characters are compared under both orders. ' + TRUST),
    dict(id='C20', title='Normalising has no effect but its result; pipelines can be shared by threads',
         statement='Normalising and building pipelines and tables read no file, environment variable, clock or global state, '
                   'change none, and keep nothing from one call to the next; normalising may emit log records. Loading a '
                   'configuration reads files and the environment and changes neither. Chanoma, Table and TableBuilder can be '
                   'moved to and shared between threads, and hold no state that a shared reference can change.',
         over=['inputs', 'histories', 'schedules'], forall='every sequence of calls, from any number of threads',
         why='Tests call each function once or twice on one thread; hidden state shows only in particular histories.',
         files=['src/chanoma.rs', 'src/modifier/', 'src/table.rs', 'src/corr.rs', 'src/configuration.rs', 'src/file.rs'],
         mech=[('normalising', 'src/chanoma.rs'), ('steps', 'src/modifier/*.rs'), ('loading', 'src/configuration.rs')],
         hook='module modifier',
         technique='effect analysis over the call graph of the MIR; type walk for interior mutability; type-level witness '
                   '(Send + Sync bound) compiled against the tree',
         note='Covers every function reachable from the entry points. The effects of library functions are a table by path in '
              'checks/c20.py; a function that is not in it makes the obligation UNDECIDED.'),
    dict(id='C21', title='Normalising never panics',
         statement='Normalising a text, plainly or with intermediate results, returns for every text (the empty text, texts of '
                   'characters of any width, texts that a step empties) and every pipeline; no step indexes, slices, '
                   'unwraps or computes out of bounds.',
         over=['inputs', 'configurations'], forall='every text, every pipeline, every parameter of a step',
         why='Tests normalise a few short texts per step.', files=['src/chanoma.rs', 'src/modifier_kind.rs', 'src/modifier/'],
         mech=[('steps', 'src/modifier/*.rs'), ('pipeline', 'src/chanoma.rs')], hook='modules modifier and modifier_kind',
         technique='abstract interpretation of MIR to a fixpoint; reachability of every panic edge',
         note=ALL + ' Positions recorded by the converter and by the reducer are looked at on texts of up to three '
              'characters only.'),
    dict(id='C22', title='Building tables, converters and pipelines, and writing tables, never panics',
         statement='Adding, removing and rebuilding tables, making a converter or a pipeline from tables (entries with empty '
                   'or equal sides included), the preset and the named groups, and writing a table to memory return for '
                   'every list of items.',
         over=['inputs', 'configurations'], forall='every list of items, every sequence of builder calls',
         why='Tests build tables of a few plain items.',
         files=['src/corr.rs', 'src/table.rs', 'src/chanoma.rs', 'src/file.rs', 'src/modifier/character_converter.rs'],
         mech=[('sums and differences', 'src/corr.rs'), ('converter from tables', 'src/modifier/character_converter.rs'),
               ('writer', 'src/file.rs')], hook='modules modifier and modifier_kind',
         technique='abstract interpretation of MIR to a fixpoint; reachability of every panic edge',
         note=ALL + ' Writing is covered for tables of up to three (thorough: four) items.'),
    dict(id='C23', title='The command line programs do what their options say, and nothing else',
         statement='chanoma loads the configuration; --preset then adds the preset and --neologdn then adds neologdn to it; it '
                   'normalises INPUT, or else the first line of standard input without its line feed, and prints the result '
                   'and a line feed, and nothing else, to standard output. A configuration that does not load ends the '
                   'program with nothing printed. --debug (and nothing else) raises the log level before logging starts. '
                   'The options are chanoma [INPUT] -d/--debug -p/--preset -n/--neologdn and output -f/--format, all '
                   'optional. output prints the preset table as CSV, or as YAML with --format yaml; CSV is the default.',
         over=['inputs', 'configurations', 'fault_sequences'],
         forall='every combination of options, every text, every outcome of loading and reading',
         why='No test runs the programs.', files=['src/main.rs', 'src/bin/output.rs'],
         mech=[('chanoma', 'src/main.rs'), ('output', 'src/bin/output.rs')],
         technique='abstract interpretation of main with the library as free operations, to a fixpoint over every combination '
                   'of options and outcomes; constant propagation through the derived option parsers',
         note='The library is a set of free operations here. ' + TRUST + ' clap, env_logger and std::io are trusted.'),
    dict(id='C24', title='The Python binding hands the library exactly what it is given',
         statement='Chanoma(...) starts from the configuration file if one is given, else from the rc file if rc is true, '
                   'else from an empty pipeline, and then adds the table, the preset and neologdn, in that order, as far as '
                   'they are asked for; Table(...) adds the preset, the csv file and the YAML file, in that order, as far as '
                   'they are asked for; arguments left out ask for nothing. A file that cannot be used raises an exception. '
                   'normalize returns what the library returns for the text. Items, correspondences and the groups of '
                   'characters_set keep their texts, their items and the order of their items both ways; Table.add adds the '
                   'items of what it is given, or raises and adds nothing.',
         over=['inputs', 'configurations', 'fault_sequences'],
         forall='every combination of arguments, every text, every list of items, every outcome of loading',
         why='The binding has no tests in the Rust suite; its Python tests use one or two combinations.',
         files=['bindings/python3/src/lib.rs', 'bindings/python3/src/characters_set.rs'],
         mech=[('constructors and methods', 'bindings/python3/src/lib.rs'),
               ('character groups', 'bindings/python3/src/characters_set.rs')],
         technique=REL + ' with the library as free operations; constant propagation for the defaults of arguments',
         note=ALL + ' PyO3 is trusted. The analysed crate is harness-py, which includes the source of the binding.'),
    dict(id='C25', title='The record of a step lists what was replaced, in text order',
         statement='The positions recorded for a step are, in text order: for trim the removed spaces at the start and at the '
                   'end, each with its offset in bytes and characters; for the reducer every run of its character, with that '
                   'character as the replacement; for the converter every character its table lists, at its place, with its '
                   'image. The other steps record none.',
         over=['inputs', 'configurations'], forall='every text, every parameter of a step',
         why='Tests compare positions for one or two texts per step.', files=['src/modifier/', 'src/position.rs'],
         mech=[('recording steps', 'src/modifier/*.rs')], hook='module modifier',
         technique=REL, note='Fixpoint for trim and the steps that record nothing: every text. The reducer and the converter '
              'are compared on texts of up to three characters with an arbitrary character or table. The numbers of a '
              'reducer\'s position are left out: the code mixes units there. ' + TRUST),
    dict(id='C26', title='A step given as text is the step it names, with its value, or an error',
         statement='neologdn, trim and dotted_space_eliminator name those steps. consecutive_character_reducer(v) takes the '
                   'first character of v; ligature_translator(a,b) the two texts; character_eliminator(v,..) and '
                   'character_converter(a: b, ..) the first characters of the values, trimmed, and the converter ignores '
                   'what is not a pair. Anything else, a value that is missing or a parenthesis that is not closed is an '
                   'error. It never panics.',
         over=['inputs', 'configurations'], forall='every text', why='Tests parse one text per step.',
         files=['src/modifier_kind.rs', 'src/modifier/'],
         mech=[('choice by name', 'src/modifier_kind.rs'), ('values', 'src/modifier/*.rs')],
         hook='modules modifier and modifier_kind', technique=REL,
         note=ALL + ' Pairs of characters are compared on short lists of values only.'),
    dict(id='C27', title='The CJK compatibility table matches Unicode',
         statement='The CJK compatibility group maps each of the 256 characters of the block to its Unicode compatibility '
                   'decomposition, written with the micro sign and the plain solidus, with K.K., pH and ppm spelt as drawn. '
                   'Each public named constant maps the character its name says.',
         over=['inputs'], forall='every character of the block U+3300 to U+33FF',
         why='No test reads the table.', files=['src/characters_set/cjk_compatibilities.rs'],
         mech=[('table constants', 'src/characters_set/cjk_compatibilities.rs')],
         technique=CONST, note=TRUST),
    dict(id='C28', title='Tables and correspondences list exactly the items they were made from',
         statement='A single mapping lists one item, a unification one item per source in the order given. A correspondence, '
                   'its copies and the table made from it list the same items in the same order; two correspondences are '
                   'equal exactly if they list the same items in the same order; items compare by source, then target. A '
                   'table read from a file names that file as its origin, a new one none.',
         over=['inputs', 'configurations'], forall='every list of items', why='Tests use lists of one or two items.',
         files=['src/corr.rs', 'src/corr/', 'src/table.rs', 'src/file.rs'],
         mech=[('groups', 'src/corr/unification.rs'), ('correspondences', 'src/corr.rs'), ('tables', 'src/table.rs')],
         technique=REL, note=ALL),
]
