import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
V='include/boost/metaparse/v1/'
ERR=[V+'define_error.hpp',V+'error/index_out_of_range.hpp',V+'error/unpaired.hpp',V+'error/literal_expected.hpp',V+'error/digit_expected.hpp',V+'error/end_of_input_expected.hpp',V+'error/expected_to_fail.hpp',V+'error/letter_expected.hpp',V+'error/none_of_the_expected_cases_found.hpp',V+'error/unexpected_character.hpp',V+'error/unexpected_end_of_input.hpp',V+'error/whitespace_expected.hpp']
# ---- claimed
p('C01','Error texts are complete or an exception under memory exhaustion',
 'Asking any parsing error message (predefined, parameterised, nested, or defined by the user with the error-defining macro) for its text yields the complete documented text or throws; whichever memory allocation fails during the call, a truncated, empty or altered text is never returned. A failed call leaks nothing, and the next call, once memory is available, returns the complete text.',
 ['fault_sequences','histories'],'every message type and parameters, every sequence of calls and every subset of allocations failing during them',
 'Only one user-defined message has its text tested at all (test/define_error.cpp), with every allocation succeeding.',
 ERR,[('text built in an std::string or std::ostringstream local to the call',V+'error/index_out_of_range.hpp, '+V+'error/unpaired.hpp'),('exceptions propagate from string construction',V+'define_error.hpp')],observe=['get_value() return value or exception','outstanding allocations'])
p('C02','Error texts and string values are right under any thread interleaving',
 'Threads may ask for the texts of parsing error messages, and read the character arrays of compile-time strings, at the same time without any synchronisation of their own. In every interleaving each call returns exactly the text it returns in a single-threaded program, also when other threads run out of memory in the middle of their calls.',
 ['schedules','fault_sequences'],'every interleaving of any number of calling threads at the granularity of single memory accesses, with allocation failures in some of them',
 'No test starts a thread.',
 ERR+[V+'cpp11/string.hpp',V+'cpp98/string.hpp'],[('no state shared between calls','all get_value() functions'),('constant-initialised arrays',V+'cpp11/string.hpp c_str, '+V+'cpp98/string.hpp c_str')],observe=['get_value() return values','c_str<S>::type::value'])
p('C03','Error texts do not depend on the process locale or stream settings',
 'The text of a parsing error message is a function of the message alone: numbers in it are plain decimal digits, and it is the same whatever the global C++ or C locale is, whatever formatting flags other streams have, and whenever another thread changes them, even in the middle of the call.',
 ['schedules','configurations'],'every sequence of changes of the global locale and of the standard streams\' formatting state, at every point of every interleaving with the calls',
 'The tests run in the classic locale only and never change it.',
 [V+'error/index_out_of_range.hpp',V+'error/unpaired.hpp',V+'error/literal_expected.hpp',V+'define_error.hpp'],[('a stream local to the call formats the numbers',V+'error/index_out_of_range.hpp, '+V+'error/unpaired.hpp')],observe=['get_value() return value'])
p('C04','The debug report on standard output is right as far as it goes',
 'The debugging utility reports the real outcome of parsing: the input text, and then either the line, column and text of the error or the remaining input. Whatever happens to standard output or memory while it reports (write errors at any byte, sinks that throw, failing allocations, the process being killed), what has been delivered to standard output is a prefix of that report: nothing is altered, reordered, repeated, skipped, or written after a gap.',
 ['fault_sequences','crash_points','inputs'],'every parser and input, every buffering of the output, every write failing, being cut short or throwing, every allocation failing, every point of being killed',
 'test/ has no test of the utility at all; only that its header compiles is checked.',
 [V+'debug_parsing_error.hpp',V+'source_position.hpp',V+'one_char.hpp',V+'get_line.hpp',V+'get_col.hpp'],[('report written in order to one stream, whose error state is sticky',V+'debug_parsing_error.hpp'),('line and column taken from the rejected result',V+'debug_parsing_error.hpp display_error')],observe=['bytes delivered to standard output'])
p('C05','Debugging a parser always ends the program, with the report already out',
 'Creating an object of the debugging utility ends the program through normal termination with exit status 0, and the code after it never runs, whether parsing fails or succeeds and also when standard output rejects the report silently. The complete report has been flushed to standard output before exit handlers start, so a handler that then crashes cannot lose it. Where the report cannot be produced (an allocation fails, or standard output is set to throw and does), the exception reaches the creator: the program does not exit with status 0 over a report cut short by that.',
 ['fault_sequences','crash_points','schedules'],'every parser and input, every output and allocation fault, every buffering of standard output, creation before main, in main or in a second thread, also after one that threw, every crash in the exit sequence',
 'test/ has no test of the utility at all.',
 [V+'debug_parsing_error.hpp'],[('std::exit(0) at the end of the constructor',V+'debug_parsing_error.hpp'),('every line ends with a flush',V+'debug_parsing_error.hpp')],observe=['exit status','bytes delivered to standard output when the first exit handler runs'])
p('C06','String and result values are usable in every phase of the program',
 'The character arrays of compile-time strings, the integral results of parses and the texts of parsing error messages have their final value in every phase of a program: in the very first static constructor of any translation unit, in threads started there, in main, in exit handlers and in the last static destructor. This holds for every order in which the translation units of the program are linked and initialised.',
 ['schedules','configurations'],'every link order and static initialisation order of a program of several translation units, and every phase of the process in which a value is read',
 'The tests read two string arrays, from main, in single-file programs.',
 [V+'cpp11/string.hpp',V+'cpp98/string.hpp',V+'cpp11/impl/empty_string.hpp',V+'cpp98/impl/empty_string.hpp',V+'string_value.hpp'],[('constant initialisation of the arrays',V+'cpp11/string.hpp, '+V+'cpp98/string.hpp'),('no dynamic initialisation anywhere in the headers','include/boost/metaparse')],observe=['c_str<S>::type::value','::value of results','get_value()'])
p('C07','What a parse gives does not depend on what else the program contains',
 'The outcome of parsing an input with a parser (accepted or rejected, remaining input, position, error text, integral result) is the same wherever in the program it is asked for: whatever order the library\'s headers were included in, whatever was parsed or instantiated earlier in the translation unit, however often and to whatever sufficient values the string length limit was redefined in between, and whichever other translation units with other histories it is linked with, in any order.',
 ['histories','schedules'],'every order of inclusion of the headers, every sequence of instantiations and limit changes before the parse, every set and link order of translation units',
 'Each test is one translation unit with one fixed order of includes and of uses, never linked with another one.',
 ['include/boost/metaparse/string.hpp',V+'string.hpp',V+'cpp11/impl/string.hpp',V+'cpp11/impl/string_at.hpp','include/boost/metaparse/limit_string_size.hpp',V+'fwd/'],[('include guards, forward declarations and macros that are undefined after use','include/boost/metaparse'),('the limit macro is expanded at the use of the string macro',V+'cpp11/impl/string.hpp')],observe=['outcome of each parse, printed by the linked program'])
T='tools/'
p('C08','Updating the dependency pins never loses or corrupts the pin file',
 'While the build-environment tool updates the dependency file, and after it ends in whatever way (a git command failing, git missing or killed, a full disk or I/O error, the tool itself killed at any point), the file holds either all of its previous content or the complete new set of pins. On success it holds the new set: exactly the same module names, each with the commit its repository reports for the requested reference after being fetched; and when anything failed the tool exits with a failure status. After any of this, a later undisturbed update succeeds.',
 ['crash_points','fault_sequences','schedules'],'every set of modules in every iteration order, every git command failing or being killed, every write failing or being cut short, every point of being killed, upstream moving at any time',
 'There is no test of the tools.',
 [T+'build_environment.py',T+'deps.json'],[('the new pins are computed and written by build_environment()',T+'build_environment.py')],observe=['content of the dependency file','exit status','git commands issued'])
p('C09','A successful environment checkout means every module is at its pin',
 'When the build-environment tool checks out an environment and exits successfully, every module listed in the dependency file, the top-level one included, is checked out at exactly its pinned commit. When any git command fails or is killed, the tool stops without issuing further git commands and exits with a failure status; the dependency file is never modified by a checkout.',
 ['fault_sequences','schedules','crash_points'],'every set of modules in every iteration order and every git command failing or being killed at any position',
 'There is no test of the tools.',
 [T+'build_environment.py'],[('ChildProcess.run() raises when git fails',T+'build_environment.py'),('checkout loop after the last submodule update',T+'build_environment.py')],observe=['state of the simulated repositories','exit status','git commands issued'])
p('C10','Regenerating the string header is all or nothing',
 'While the string-header generator runs and after it ends in whatever way (invalid limits, a full disk or I/O error, killed at any point), the generated header in the include tree holds either all of its previous content or the complete new header, so that a compilation at any time sees a whole header. It exits successfully only when the complete new header is in place, and with a failure status otherwise. After any of this, a later undisturbed run with valid limits succeeds.',
 ['crash_points','fault_sequences'],'every choice of limits, every write, close or rename failing or being cut short, every point of being killed, a reader at every instant',
 'There is no test of the tools.',
 [T+'string_headers.py',V+'cpp11/impl/string.hpp'],[('generate_string() writes the header',T+'string_headers.py')],observe=['content of the header after every file operation','exit status'])
p('C11','Regenerating the tutorial never loses its hand-written source',
 'The tutorial generator rewrites its hand-written source guide in place: while it runs and after it ends in whatever way (a full disk or I/O error, killed at any point), the guide holds either all of its previous text or the complete new text, which is the previous one with only the generated notes, links and lists brought up to date. When the guide cannot be read completely, nothing at all is deleted or modified.',
 ['crash_points','fault_sequences'],'every guide, every file operation failing or being cut short, every point of being killed',
 'There is no test of the tools.',
 [T+'generate_all.py'],[('main() reads the guide first and writes it last',T+'generate_all.py')],observe=['content of the guide and of all other files after every file operation'])
p('C12','Any history of interrupted tutorial generation converges',
 'For every guide in which no section starts directly after an indented line and the two generated sections hold nothing but what the generator lists there, and whatever sequence of tutorial generator runs came before (completed, failed with an I/O error or killed at any point), a run that exits successfully leaves the same guide, headers and included documents as one undisturbed run on the original guide, and running it again changes nothing. A run that met an error does not exit successfully; an undisturbed one does.',
 ['histories','crash_points','fault_sequences'],'every guide and every sequence of completed, failed and killed runs, in every directory listing order',
 'There is no test of the tools; the one committed output only shows the last of the runs.',
 [T+'generate_all.py'],[('outputs are pure functions of the guide; regenerated parts of the guide are stripped first',T+'generate_all.py what_we_have_so_far_docs, extract_code_snippets'),('the guide is replaced last',T+'generate_all.py main')],observe=['content of all files after each run','exit status'])
p('C13','The tutorial generator touches nothing it does not own',
 'At every moment of every tutorial generator run, disturbed or not, the files it does not own are exactly as they were: everything in the header directory that is not a header, everything else in the documentation directory than the guide, the documents it generates for the guide and its temporary files, and everything outside these two directories.',
 ['crash_points','fault_sequences','histories'],'every content of the directories, every guide, every sequence of completed, failed and killed runs',
 'There is no test of the tools.',
 [T+'generate_all.py'],[('delete_old_headers() filters on the extension; file names derive from section numbers and snippet counters',T+'generate_all.py')],observe=['file operations issued and content of all files'])
p('C14','Benchmark sources regenerate identically from the same seed',
 'Generating the benchmark sources twice from the same templates and the same seed gives the same set of files with the same contents, whatever order the file system lists the template directory in and whatever order the interpreter iterates dictionaries in, also into a directory in which earlier runs failed or were killed. A file operation that fails makes the generator exit with a failure status.',
 ['schedules','fault_sequences'],'every directory listing order, every dictionary order, every file operation failing, every sequence of earlier runs',
 'There is no test of the tools, and a single machine always lists a directory in the same order.',
 [T+'benchmark/generate.py',T+'benchmark/chars.py'],[('random.seed(--seed), documented as ensuring consistent regeneration',T+'benchmark/generate.py main')],observe=['content of the output directory','exit status'])
p('C15','Runs of a tool at the same time never spoil each other\'s files',
 'Any number of runs of one of the tools (build-environment, string-header generator, tutorial generator) may work on the same files at the same time, some of them failing or being killed. In every interleaving of their file operations and git commands, the dependency file, the string header and the guide (one as in C12) hold at every moment their previous content or the complete new content of one of the runs; a checkout that succeeds has all modules at the pins of one complete dependency file. Undisturbed runs of the first two (with output directories of their own) succeed, and once all have ended the new content of one is in place; tutorial generator runs that all succeed leave what one run alone would, and whatever happened, a run alone afterwards does.',
 ['schedules','crash_points','fault_sequences'],'every interleaving of the file operations and git commands of two or more runs, every one of them failing or being cut short, every point at which one of the runs is killed',
 'There is no test of the tools.',
 [T+'build_environment.py',T+'string_headers.py',T+'generate_all.py'],[('new content goes to a temporary file of each run\'s own, and is put in place by a rename',T+'build_environment.py replace_file, '+T+'string_headers.py replace_file, '+T+'generate_all.py write_file'),('pins are loaded once, before the first git command',T+'build_environment.py build_environment')],observe=['content of the files after every file operation of every run','exit statuses'])
# ---- pure: not applicable
def na(id,title,statement,files,mech,why):
    p(id,title,statement,['inputs','programs'],'every input string and every composition of parsers',why,files,mech,observe=['static assertions on the result type'])
W='The tests check a handful of inputs per parser with static assertions.'
na('C20','Character parsers accept exactly their documented character set','Each single-character parser accepts an input exactly when it is non-empty and its first character is in the documented set, consumes exactly that character and gives the documented result; otherwise it rejects without consuming and with the documented error.',[V+'one_char.hpp',V+'lit.hpp',V+'lit_c.hpp',V+'digit.hpp',V+'letter.hpp',V+'range.hpp',V+'one_char_except_c.hpp',V+'space.hpp',V+'alphanum.hpp'],[('accept_when over one_char',V+'accept_when.hpp')],W)
na('C21','Sequences apply their parsers in order and fail with the first failure','A sequence of parsers accepts exactly when each accepts what the previous ones left, gives the results in order (or the selected, folded or transformed one), and otherwise rejects with the message and position of the first parser that failed.',[V+'cpp11/sequence.hpp',V+'cpp98/sequence.hpp',V+'sequence_apply.hpp',V+'first_of.hpp',V+'last_of.hpp',V+'middle_of.hpp',V+'nth_of_c.hpp'],[('threading of remaining input and position',V+'cpp11/sequence.hpp')],W)
na('C22','Ordered choice takes the first accepting alternative','A choice gives the outcome of the first alternative that accepts; when none does, it rejects at the furthest position any of the alternatives reached.',[V+'cpp11/one_of_c.hpp',V+'cpp98/one_of.hpp',V+'cpp11/impl/eval_later_result.hpp'],[('later result selection',V+'cpp11/impl/eval_later_result.hpp')],W)
na('C23','Repetition consumes maximally and folds in order','Repetition combinators apply their parser until it first rejects, fold the results from the documented side, and the strict variants reject when the last, failing application got past the position it started from.',[V+'foldl.hpp',V+'foldr.hpp',V+'repeated.hpp',V+'foldl_reject_incomplete.hpp',V+'foldr_reject_incomplete.hpp',V+'iterate_c.hpp'],[('recursion on the remaining input',V+'foldl.hpp')],W)
na('C24','Positions count lines and columns the same for every line ending','The position after any accepted prefix has the line and column of the next character, counting CR, LF and CR LF as one line end each.',[V+'source_position.hpp',V+'one_char.hpp',V+'next_char.hpp',V+'next_line.hpp'],[('next_pos',V+'one_char.hpp')],W)
na('C25','Compile-time strings behave as sequences of their characters','Concatenation, push, pop, size, indexing, iteration, comparison and clearing of compile-time strings agree with the same operations on the sequence of their characters, up to the length limit.',[V+'cpp11/string.hpp',V+'cpp98/string.hpp',V+'cpp11/impl/concat.hpp',V+'impl/string_iterator.hpp'],[('tag-dispatched sequence operations',V+'cpp11/string.hpp')],W)
na('C26','The string macro yields the literal, or a compile error when too long','For every literal not longer than the limit, the string macro yields the string of exactly its characters, embedded zeros included; for every longer literal compilation fails.',[V+'cpp11/impl/string.hpp',V+'cpp11/impl/string_at.hpp'],[('make_string and the index macros',V+'cpp11/impl/string.hpp')],W)
na('C27','All language standards give the same parse','The C++98, C++11 and C++14 implementations of each component accept the same inputs with the same result, remaining input and position for the same parser, within the documented C++98 limits, and reject the others at the same position.',[V+'cpp98/',V+'cpp11/',V+'cpp14/'],[('selection by the configuration macro','include/boost/metaparse/config.hpp')],'Each test runs in each standard, on the same handful of inputs.')
na('C28','Transformations change only what they name','Result and error transformations replace exactly the result, or exactly the error message, and leave acceptance, remaining input and position as they were.',[V+'transform.hpp',V+'transform_error.hpp',V+'transform_error_message.hpp',V+'change_error_message.hpp',V+'unless_error.hpp',V+'always.hpp'],[('unless_error',V+'unless_error.hpp')],W)
na('C29','Look-ahead and negation never consume input','Look-ahead gives the result of its parser, and negation the documented result or error, leaving remaining input and position exactly as they were.',[V+'look_ahead.hpp',V+'except.hpp',V+'optional.hpp',V+'empty.hpp'],[('accept with the original input and position',V+'look_ahead.hpp')],W)
na('C30','A built parser compiles exactly for the inputs its parser accepts','Applying a built parser to an input gives the parser\'s result when it accepts, and fails to compile, naming message and position in the diagnostics, when it rejects; demanding the entire input rejects any input not fully consumed.',[V+'build_parser.hpp',V+'entire_input.hpp'],[('x__________________PARSING_FAILED__________________x',V+'build_parser.hpp')],'No test expects build_parser to fail to compile.')
na('C31','Number parsing gives the decimal value','Parsing a digit sequence gives the integer it denotes, for every sequence whose value fits the integer type, and conversions between digits and values are inverse.',[V+'int_.hpp',V+'digit_val.hpp',V+'util/digit_to_int.hpp',V+'util/int_to_digit.hpp',V+'impl/next_digit.hpp'],[('foldl1 over digit values',V+'int_.hpp')],W)
na('C32','Grammar descriptions mean the parser they denote','A parser built from textual grammar rules accepts and gives the same as the parser composed by hand from the same rules, for every rule set without recursion.',[V+'grammar.hpp'],[('the grammar\'s own parser',V+'grammar.hpp')],W)
na('C33','Keywords and tokens consume exactly what they match','A keyword parser accepts exactly inputs starting with the keyword and consumes just it; a token additionally consumes all whitespace that follows, and nothing else.',[V+'keyword.hpp',V+'token.hpp',V+'spaces.hpp'],[('recursion over the keyword',V+'keyword.hpp')],W)
na('C34','Character predicates classify every character value','The character predicates and range tests agree with the documented ranges for every value of the character type, and are themselves usable lazily.',[V+'util/in_range.hpp',V+'util/is_digit.hpp',V+'util/is_letter.hpp',V+'util/is_whitespace.hpp',V+'util/is_lcase_letter.hpp',V+'util/is_ucase_letter.hpp'],[('integral comparison',V+'util/in_range_c.hpp')],W)
na('C35','Every requested string limit is supported by the generated header','For every positive maximum length and step, the header generator produces a header under which every limit up to the maximum works, as with the shipped header up to 2048.',[T+'string_headers.py',V+'cpp11/impl/string.hpp'],[('length_limits()',T+'string_headers.py')],'There is no test of the tools; the tests use two limits.')
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import sys; sys.path.insert(0,'')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    if x['statement'].count('. ')>2: print(x['id'],'sentences')
