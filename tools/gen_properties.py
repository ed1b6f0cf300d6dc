#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))
I = 'include/sharg/'
D = I + 'detail/'

prop('C01', 'A valid command line sets exactly the values it spells out',
 "For every declared set of options, flags and positional options and every unambiguous command line in any of the documented notations (-o value, -ovalue, -o=value, --opt value, --opt=value, single and clustered short flags, long flags, positional arguments in any interleaving), parse() succeeds and every declared variable that is mentioned holds exactly the value written for it. "
 "Options and flags that are not mentioned keep the value they had before, and neither the order of options and flags on the command line nor the notation chosen for an option changes the outcome.",
 ['inputs', 'programs'], "All parser declarations (option types, identifiers, order of declaration) times all unambiguous command lines for them: notation per occurrence, interleaving, flag clustering, value contents.",
 "The unit tests contain a few hand-written parsers with one or two options each; they do not combine notations, interleavings and value contents, so a token consumed by the wrong option is only visible for the tested combination.",
 [D+'format_parse.hpp', I+'parser.hpp'],
 [('option/flag/positional retrieval passes', D+'format_parse.hpp: get_option, get_flag, get_positional_option, find_option_id'), ('argument classification', I+'parser.hpp: determine_format_and_subcommand')],
 [('arguments', 'remaining, not yet consumed arguments', D+'format_parse.hpp')], ['values of the bound variables after parse()', 'exception thrown by parse()'])

prop('C02', 'Any argument vector ends in success, exit 0 or a parser error',
 "For every valid parser declaration and every argument vector whatsoever (any number of arguments, any bytes), parse() either returns, or ends the program successfully after printing the requested page, or throws an exception derived from sharg::parser_error that is not a design_error. "
 "It never crashes, hangs, reads or writes out of bounds, or lets any other exception escape, and doing the same again has the same outcome.",
 ['inputs', 'programs'], "All parser declarations times all argument vectors, including malformed, contradictory and binary ones.",
 "Tests only feed arguments somebody thought of; undefined behaviour and asserts at the end of strings or argument lists need arbitrary bytes at arbitrary positions.",
 [I+'parser.hpp', D+'format_parse.hpp', I+'exceptions.hpp'],
 [('exception hierarchy', I+'exceptions.hpp'), ('bounds handling of the argument scan', D+'format_parse.hpp: identify_and_retrieve_option_value, flag_is_set')],
 (), ['outcome of parse() under AddressSanitizer/UBSan'])

prop('C03', 'Every user error is reported with its documented exception',
 "A command line that is valid except for one mistake makes parse() throw the exception documented for that mistake: unknown_option for an identifier that was not declared, option_declared_multiple_times for a repeated non-list option (in any mix of notations), required_option_missing for an absent required option, too_few_arguments for a missing option value or positional argument, too_many_arguments for a superfluous one, user_input_error for a value that does not parse as the type or does not fit into it, validation_error for a value the validator rejects. "
 "The message names the offending identifier (short and long as declared; of a cluster of flags, the unknown ones only) or value, and no mistake is silently accepted.",
 ['inputs', 'programs'], "All parser declarations times all valid command lines times all single mistakes at all positions.",
 "Each error is tested on one or two fixed command lines; whether it is still noticed next to other options, in another notation or at another position is not.",
 [D+'format_parse.hpp', I+'parser.hpp', I+'exceptions.hpp'],
 [('unknown/left-over/multiple/required checks', D+'format_parse.hpp: check_for_unknown_ids, check_for_left_over_args, get_option'), ('input errors', D+'format_parse.hpp: throw_on_input_error')],
 (), ['dynamic type and what() of the exception thrown by parse()'])

prop('C04', 'Option values are converted exactly or rejected',
 "For every option type, the text of an argument is converted to exactly the value it denotes and is rejected with user_input_error otherwise: integers of every width and signedness take decimal numbers over their whole range, floating point types take the nearest representable number, bool takes 0, 1, true and false, std::string and std::filesystem::path take the argument verbatim, and other streamable types must consume the whole argument. "
 "A number that does not fit, and any leading or trailing characters that are not part of the value, are errors; nothing is truncated or wrapped.",
 ['inputs'], "All argument texts for all supported option types, as option value in every notation, positional argument and list element; especially the neighbourhood of the numeric limits.",
 "Tests parse a handful of numbers per type; correctness for all texts (limits, exponents, signs, whitespace, embedded quotes) is a statement over an infinite input space.",
 [D+'format_parse.hpp', I+'std/charconv'],
 [('parse_option_value overloads', D+'format_parse.hpp: parse_option_value')],
 (), ['value of the bound variable', 'exception thrown by parse()'])

prop('C05', 'List options collect all values in command line order',
 "A list option or list of positional arguments holds, after parse(), exactly the values given on the command line, in the order in which they are given, whichever mix of short and long identifiers and notations is used; its default content is replaced if at least one value is given and kept otherwise. "
 "A list of positional arguments takes all arguments that remain after the preceding positional options. If one element cannot be converted or is rejected by the validator, parse() fails.",
 ['inputs', 'programs'], "All element types and containers, all defaults, all sequences of occurrences interleaved with other arguments.",
 "Tests use two or three values with one identifier; the tutorial's own mixed short/long example was broken on the original tree without any test noticing.",
 [D+'format_parse.hpp'],
 [('list retrieval', D+'format_parse.hpp: get_list_option, get_positional_option, parse_option_value(container)')],
 (), ['content of the bound container', 'exception thrown by parse()'])

prop('C06', 'Everything behind -- is a positional argument, taken verbatim',
 "Every argument behind the first -- that is not itself an option value is a positional argument and is assigned verbatim, whatever it looks like: identifiers of options, flags or flag clusters, special requests such as --help or --version-check, further -- or empty arguments. "
 "It never sets an option or flag, is never reported as unknown, and does not influence whether an option counts as set; the -- itself is no argument.",
 ['inputs', 'programs'], "All parser declarations with positional options and all argument lists behind the marker, including ones crafted from the declared identifiers.",
 "The tests use the marker with two harmless arguments; the original tree interpreted flags, --help and --version-check behind it.",
 [I+'parser.hpp', D+'format_parse.hpp'],
 [('end-of-options handling', D+'format_parse.hpp: end_of_options_it'), ('special argument scan', I+'parser.hpp: determine_format_and_subcommand')],
 (), ['values of the bound variables', 'outcome of parse()'])

prop('C07', 'Value validators accept exactly the values they describe',
 "The arithmetic range validator accepts exactly the numbers in its closed interval, the value list validator exactly the listed values, the regex validator exactly the strings the whole of which matches the pattern, and a chain exactly what all its parts accept; lists are accepted iff every element is. "
 "In a parser a validator is applied iff its option was given on the command line (defaults are not validated), positional options are always validated, a rejection surfaces as validation_error naming the option and the reason, and an accepted value is left unchanged.",
 ['inputs', 'programs'], "All intervals, value lists, patterns and chains of them; all values, element types and lists; called directly and through a parser.",
 "Tests check a few values per validator; boundary values, empty lists, long chains, mixed arithmetic types and the given/not-given distinction are universally quantified.",
 [I+'validators.hpp', D+'format_parse.hpp'],
 [('validator call operators', I+'validators.hpp: arithmetic_range_validator, value_list_validator, regex_validator, validator_chain_adaptor'), ('validator invocation', D+'format_parse.hpp: get_option, get_positional_option')],
 (), ['exception thrown by the validator or by parse()'])

prop('C08', 'File and directory validators agree with the file system',
 "For every state of the file system, the input file validator accepts exactly existing, readable regular files, the input directory validator exactly existing, readable directories, the output file validator exactly paths of files that can be created or - only if opened with open_or_create - written, and the output directory validator exactly directories in which a file can be created, now or after creating the directory. "
 "File validators with a list of extensions additionally accept only names that have one of these extensions (compared case-insensitively, also multi-part ones, ignoring the leading dot of hidden files). Everything else is rejected with validation_error, and lists of paths are accepted iff every path is.",
 ['inputs', 'configurations'], "All small directory trees (files, directories, symbolic links, permissions, names) times all paths into them times all extension lists and open modes, for an unprivileged user.",
 "Tests build one or two files in the temporary directory; permissions, links, missing parents and the combinations of name shape and extension list are not enumerated.",
 [I+'validators.hpp'],
 [('existence, permission and extension checks', I+'validators.hpp: file_validator_base and derived classes')],
 (), ['exception thrown by the validator, compared with system calls issued by the harness'])

prop('C09', 'Validators leave the file system as they found it',
 "Validating a path changes nothing on disk: no pre-existing file or directory is modified, truncated or removed, and no file or directory created to probe permissions remains, whether the path is accepted or rejected. "
 "The only exception is an accepted file of an output file validator with open_or_create, where the very file that the user agreed to overwrite may be cleared or removed.",
 ['inputs', 'configurations'], "All small directory trees with contents and permissions times all validators times all paths and lists of paths.",
 "Tests never compare the surroundings before and after; on the original tree files called dummy.txt and rejected output files were lost.",
 [I+'validators.hpp', D+'safe_filesystem_entry.hpp'],
 [('write probing', I+'validators.hpp: validate_writeability, output_directory_validator'), ('clean-up guard', D+'safe_filesystem_entry.hpp')],
 (), ['snapshot (path, type, mode, content) of the scratch tree before and after'])

prop('C10', 'Subcommands split the command line and get their part untouched',
 "If a parser has subcommands, parse() handles the arguments before the first subcommand name as its own options and flags and hands all arguments behind the name, unchanged and in order, to a sub-parser named <app>-<subcommand>; this applies recursively. "
 "A subcommand name that is the value of an option does not start a subcommand; any other non-option argument before a subcommand is a user_input_error that lists all available subcommands; requests such as --help behind the name belong to the sub-parser; and if no subcommand is given, requesting the sub-parser is a design_error.",
 ['inputs', 'programs'], "All trees of subcommands (added on construction or later, with duplicates), all top-level options and all argument vectors built for them.",
 "Tests use a two-level parser and five command lines.",
 [I+'parser.hpp'],
 [('subcommand detection', I+'parser.hpp: determine_format_and_subcommand, add_subcommands, get_sub_parser')],
 [('sub_parser', 'parser for the arguments behind the subcommand', I+'parser.hpp')], ['values of parser and sub-parser variables', 'sub-parser app_name', 'exceptions'])

prop('C11', 'Special requests print their page and exit successfully',
 "If the arguments contain one of -h/--help, -hh/--advanced-help, --version, --copyright or --export-help with a supported format (as next argument or with =), not behind -- and not as the value of an option, parse() prints exactly that page to standard output and nothing to standard error, ends the program with exit code 0, and does so whatever else is on the command line (except for an unknown subcommand, which is an error): errors are not reported, no variable is modified and no validator is run. "
 "Without any argument a short help is printed the same way. Unsupported export formats and malformed --version-check or --export-help requests are parser errors instead.",
 ['inputs', 'programs'], "All parser declarations times all command lines, valid or not, times all special requests at all positions.",
 "The tests request each page from an otherwise empty command line.",
 [I+'parser.hpp', D+'format_help.hpp', D+'format_html.hpp', D+'format_man.hpp'],
 [('special argument scan', I+'parser.hpp: determine_format_and_subcommand'), ('exit after special formats', I+'parser.hpp: parse')],
 (), ['exit code, standard output, standard error', 'values of the bound variables'])

prop('C12', 'Help pages document exactly the declared interface',
 "The console help, advanced help and exported HTML and man pages contain, in declaration order, every declared option and flag with its identifiers, type, description, default (or default message; none for required options) and the description of its validator, every positional option, every section, subsection, line and list item, all subcommands, and all non-empty meta data. "
 "Hidden options appear on no page; advanced entries appear on the advanced and exported pages but not on the plain help page; nothing else is added, lost or reordered, in all formats alike.",
 ['inputs', 'programs'], "All parser declarations with arbitrary texts, annotations, defaults, validators and meta data, in all four page formats.",
 "The tests compare complete pages of a few fixed parsers. Which entry appears on which page depends on combinations of annotations, formats and empty fields they do not cover (e.g. advanced options were missing from exports).",
 [D+'format_base.hpp', D+'format_help.hpp', D+'format_html.hpp', D+'format_man.hpp', D+'to_string.hpp'],
 [('page assembly', D+'format_base.hpp: format_help_base::parse, store_help_page_element, add_option, get_default_message')],
 (), ['token sequence of the printed page'])

prop('C13', 'The console help is laid out for the terminal without losing text',
 "For every terminal width, every word of every text is printed completely and in order, no line of running text is longer than the usable width (the terminal width limited to 40..120, 80 if unknown, minus a margin) unless a single word does not fit, words are filled greedily, and every line of a text, continuation lines included, starts at the indentation of its kind of text. "
 "Text markup becomes terminal escape sequences, always reset again, only if standard output is a terminal; otherwise the page contains plain text only.",
 ['inputs', 'configurations'], "All texts and parser declarations times all terminal widths (0..300 columns) times terminal/no terminal.",
 "All tests run with a width of 80 and no terminal; the wrapping arithmetic is only exercised at one width.",
 [D+'format_help.hpp', D+'terminal.hpp'],
 [('line wrapping', D+'format_help.hpp: print_text, text_width, console_layout_struct'), ('terminal queries', D+'terminal.hpp')],
 (), ['lines of the printed page on a pseudo terminal'])

prop('C14', 'The exported HTML page is well-formed and escapes all text',
 "For every parser declaration and all texts, --export-help html prints a page in which all elements are properly nested and closed and lists and paragraphs do not overlap, and the text content, after decoding of entities, is exactly the text given by the developer. "
 "No character of a text (<, >, &, quotes, backslashes) is taken as HTML markup; only the documented \\fB, \\fI, \\fP markup becomes elements.",
 ['inputs', 'programs'], "All parser declarations and texts over a character set rich in HTML and escape characters.",
 "The test pages contain no special characters at all; on the original tree nothing was escaped.",
 [D+'format_html.hpp', D+'format_base.hpp'],
 [('markup conversion and escaping', D+'format_html.hpp: to_html', ), ('element bookkeeping', D+'format_html.hpp: maybe_close_list, maybe_close_paragraph')],
 (), ['HTML page parsed by an independent tokenizer'])

prop('C15', 'The exported man page is structured roff with intact text',
 "For every parser declaration and all texts, --export-help man prints a title line with the upper-case application name, section, date, version and title, and a body whose requests are only the ones for sections, subsections, list items and line or paragraph breaks, one per corresponding entry and in order. "
 "Texts appear completely and are never interpreted as requests, whatever character they start with.",
 ['inputs', 'programs'], "All parser declarations and texts, including texts starting with roff control characters.",
 "The man page test compares two fixed pages; on the original tree a line starting with a dot vanished from the page.",
 [D+'format_man.hpp'],
 [('roff output', D+'format_man.hpp: print_header, print_section, print_line, print_list_item')],
 (), ['roff source parsed line by line'])

prop('C16', 'Every misuse of the parser interface is a design_error',
 "For every sequence of calls that set up and use a parser, each call either succeeds or throws sharg::design_error, and it throws exactly if the documented rules are broken: missing, malformed, duplicate or reserved identifiers, identifiers, default messages, or advanced/hidden marks where not allowed, a flag that defaults to true, positional options behind a positional list or next to subcommands, set-up calls after parse(), parsing twice, malformed application or subcommand names, asking for a sub-parser that does not exist. "
 "A rejected declaration is never acted upon silently, and a legal one is never rejected.",
 ['histories', 'inputs'], "All sequences of interface calls with all configurations, including every character as an identifier.",
 "Tests check one example per rule; the exact boundary (every character, every order, every combination of fields) is universally quantified.",
 [I+'parser.hpp', I+'config.hpp'],
 [('verification functions', I+'parser.hpp: verify_identifiers, verify_option_config, verify_flag_config, verify_positional_option_config, check_parse_not_called, verify_app_and_subcommand_names')],
 [('used_ids', 'identifiers that are taken or reserved', I+'parser.hpp')], ['exception of each call'])

prop('C17', 'is_option_set tells exactly which identifiers were used',
 "After parse(), is_option_set answers true for an identifier of an option exactly if this identifier was used on the command line, in any notation, before a -- and in the part that belongs to this parser; the default value and the given value do not matter. "
 "Asking before parse(), with a one-character string, or for an identifier that was neither declared nor reserved is a design_error.",
 ['inputs', 'programs'], "All parser declarations and unambiguous command lines, all identifiers asked for.",
 "One test with three identifiers.",
 [I+'parser.hpp', D+'format_parse.hpp'],
 [('identifier search', I+'parser.hpp: is_option_set; '+D+'format_parse.hpp: find_option_id')],
 (), ['result of is_option_set'])

prop('C18', 'Update requests respect every opt-out, in the documented order',
 "In every history of runs, a request to the update server is made only if the developer enabled notifications and SHARG_NO_VERSION_CHECK is not set; then --version-check decides if given; otherwise a request is made at most once per day and only if the user once chose ALWAYS or answers so when asked on an interactive terminal, and never after choosing NEVER. "
 "The decision and the time of the last question or request are remembered per application; runs that opt out or use --version-check remember nothing. A run that is not interactive never asks: it postpones the question by a day and makes no request on its own.",
 ['histories', 'configurations'], "All histories of runs of an application: developer setting, environment, --version-check, stored decision and age (also corrupt), interactive answers, terminal or not.",
 "The tests check single runs with prepared files and cannot run interactively; histories (what one run leaves for the next) are not covered.",
 [D+'version_check.hpp', I+'parser.hpp'],
 [('decision', D+'version_check.hpp: decide_if_check_is_performed, write_cookie, get_time_diff_to_current')],
 [('timestamp file', 'time and remembered decision', '~/.config/seqan/<app>_{dev,usr}.timestamp')], ['recorded calls of system()', 'timestamp file', 'standard error'])

prop('C19', 'The update request is injection-safe and its answer shown correctly',
 "If a request is made, the only command run (besides probing for a download tool) calls that tool with exactly the file <config>/<app>.version as output and exactly the documented URL built from the application name and the numeric version, whatever the application version, the URL and the path of the home directory contain; an application name that could be more than one word is refused. "
 "A notification is printed to standard error exactly if the stored answer of the server says so: in release mode iff the application is older than the latest version, in debug mode iff Sharg is older, the application is newer than the registered one, or unregistered.",
 ['inputs', 'configurations'], "All application names, version strings, URLs and home directories; all contents of the stored answer; debug and release builds.",
 "Tests use one name, one path without special characters and a few version files; they never look at the command.",
 [D+'version_check.hpp', I+'parser.hpp'],
 [('command construction', D+'version_check.hpp: operator(), get_program, call_server'), ('version comparison', D+'version_check.hpp: get_numbers_from_version_string')],
 (), ['recorded calls of system(), split by an independent shell tokenizer', 'standard error'])

prop('C20', 'A parser can be moved at any point before parsing',
 "Moving a parser (construction or assignment, any number of times, the source being destroyed afterwards) at any point between its construction and parse() changes nothing: everything declared so far is kept, declarations can be continued, and parse() has the same outcome as without moves. "
 "A parsed parser can be moved as well and still answers is_option_set and get_sub_parser.",
 ['histories', 'programs'], "All sequences of declarations with moves in between and all command lines.",
 "No test moves a parser after adding an option; on the original tree all options were lost.",
 [I+'parser.hpp'],
 [('defaulted move operations and deferred operations', I+'parser.hpp: operations, parse')],
 (), ['outcome of parse(), bound variables, under AddressSanitizer'])

prop('C21', 'Named enumerations convert between names and values consistently',
 "For every enumeration with names, each name given on the command line yields exactly the value it is mapped to, and every other text is a user_input_error whose message lists every name exactly once. "
 "Printing a value (as default on the help pages or in validator messages) shows a name that is mapped to this value, so that what is shown can be given back; this holds for scalars, lists and positional options and for names provided either way (function or specialisation).",
 ['inputs', 'programs'], "All enumerations in the harness (both customisation ways, aliases, maps of different kinds) times all texts near the names.",
 "Tests use two enumerations and a few names.",
 [I+'enumeration_names.hpp', D+'format_parse.hpp', D+'format_base.hpp'],
 [('name lookup', D+'format_parse.hpp: parse_option_value(named_enumeration)'), ('printing', I+'enumeration_names.hpp: operator<<')],
 (), ['value of the bound variable', 'exception message', 'help page'])

prop('C22', 'Version, copyright and short help show the right meta data',
 "For all meta data, --version prints name, short description, date, application version, Sharg version and, if given, the URL; --copyright prints the long copyright text if given, else the short one, else that there is none, followed by the library's licence; the short help prints name, short description and all synopsis lines. "
 "All given texts appear completely, and sections whose data is empty are omitted.",
 ['inputs', 'configurations'], "All combinations of empty and non-empty meta data with arbitrary contents.",
 "Tests check one or two combinations.",
 [D+'format_help.hpp', D+'format_base.hpp'],
 [('version, copyright and short help formats', D+'format_help.hpp: format_version, format_copyright, format_short_help'), ('version section', D+'format_base.hpp: print_version')],
 (), ['printed page'])

prop('C23', 'Parsing depends on nothing but declaration and arguments',
 "The outcome of parse() is a function of the parser declaration and the arguments: it is the same whether arguments are passed as argc/argv or as vector, in whichever order options and flags are declared, and however many parsers were used before or exist at the same time in the program. "
 "Sub-parsers, failed parses and printed help pages leave no state behind that influences later parsers.",
 ['histories', 'programs'], "All pairs of equivalent declarations and all histories of previously used parsers.",
 "Tests never compare two runs.",
 [I+'parser.hpp', D+'format_parse.hpp'],
 [('per-parser state', I+'parser.hpp: members of parser')],
 (), ['outcome of parse(), compared between two equivalent set-ups'])

prop('C24', 'The environment never makes parsing fail',
 "Whatever the state of the environment that only serves update notifications - HOME or the directory for temporary files unset, empty, missing, read-only, inaccessible or not a directory, corrupt or unwritable files of earlier runs, no download tool, no thread available - parse() has the same result as in a normal environment, and apart from its own files in the configuration directory (or the directory for temporary files) nothing on disk is created, changed or removed. "
 "Without any usable directory no update request is made.",
 ['configurations', 'fault_sequences'], "All combinations of faulty environment states times developer and user decisions times command lines.",
 "Tests run with one healthy HOME; on the original tree an unset HOME made every application fail.",
 [D+'version_check.hpp', I+'parser.hpp', D+'safe_filesystem_entry.hpp'],
 [('path selection and probing', D+'version_check.hpp: get_path'), ('update check run', I+'parser.hpp: run_version_check')],
 (), ['outcome of parse()', 'snapshot of the scratch tree', 'recorded calls of system()'])

prop('C25', 'Tool descriptions describe exactly the declared interface',
 "If the tool description library (TDL) is available, --export-help ctd or cwl hands exactly one description to the converter of that format, prints its result and ends the program successfully. "
 "The description lists the positional options in order (required unless they are lists), then every option and flag that is not hidden in the order of their declaration, named by the long identifier or else the short one, with the text of the help pages, the tags required, advanced, file, directory and output that declaration and validator imply, and the initial value as a number, boolean, text or list according to its type; every option is mapped to its identifier on the command line. "
 "Name, version, URL, description and executable are those of the parser, and the parameters of a subcommand are nested below the subcommands that lead to it.",
 ['inputs', 'programs', 'configurations'], "All parser declarations, meta data and depths of subcommands, for both formats, in programs built with SHARG_HAS_TDL=1.",
 "The tests compare a few fixed descriptions and are skipped where the library is not installed, as it is here.",
 [D+'format_tdl.hpp', I+'parser.hpp'],
 [('collection of parameters', D+'format_tdl.hpp: add_option, add_flag, add_positional_option, parse'), ('values', D+'format_tdl.hpp: to_tdl'), ('executable and subcommands', I+'parser.hpp: executable_name')],
 (), ['tdl::ToolInfo given to tdl::convertToCTD or tdl::convertToCWL', 'standard output and exit code'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
try:
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P: jsonschema.validate(p, sch)
    print('valid', len(P))
except ImportError:
    print('written', len(P))
