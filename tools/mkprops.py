import json
G='pash_annotations/annotation_generation/annotation_generators/'
D='pash_annotations/annotation_generation/datatypes/'
P='pash_annotations/parser/'
T='pash_annotations/datatypes/'
A='pash_annotations/annotation_generation/AnnotationGeneration.py'
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    return d
L=[]
L.append(p('C01','Parsing loses, invents and reorders no word of the command line',
 'Parsing a command line yields its first word as the command name and exactly its remaining words, in order, as flags, options with their argument, and then operands; apart from replacing a flag or option by another spelling of the same one and splitting a bundle of one-letter flags, no word is lost, invented, merged, changed or moved. Words are delimited as by a POSIX shell (blanks, single and double quotes, backslash), so operands and option arguments keep every quoted character, including empty words. A line that has no words or ends inside a quotation is rejected with an error instead of being parsed to something else.',
 ['inputs'],'every command line (string over blanks, quotes, backslashes, ordinary characters; words of every kind: flags, options, bundles, "-", "--", empty words) for every command, known or unknown',
 '5 parser test files pin 8 literal command lines; no test has quoting beyond one pattern, bundles next to options, or empty/odd words in the middle of a line.',
 [P+'parser.py'],[('word splitting','parse'),('classification loop','parse'),('operand tail','parse')],['parse(line): command name, flag/option list, operand list']))
L.append(p('C02','Words are classified exactly as the option table of the command says',
 'From left to right, a word that is a spelling of a flag of the command becomes that flag, a word that is a spelling of an option that takes an argument consumes the next word (whatever that looks like) as its argument, and a word of the form -xyz whose letters are all one-letter flags becomes these flags; the first word that is none of these (or is empty, or an option without a following word) ends the flags, and it and every later word is an operand. Flags and options are always reported under the one canonical spelling of the command\'s table, also inside bundles. A command without table (also when named by a path) has neither flags nor options.',
 ['inputs','configurations'],'every command with a table or without, every spelling of every flag and option of any command, in every order and context up to the explored length',
 'Tests parse eight lines of three commands; 20 of the 23 tables are never read by a parser test.',
 [P+'parser.py',P+'util_parser.py',P+'command_flag_option_info/data'],[('flag/option lookup','parse'),('bundles','are_all_individually_flags'),('canonical spelling','get_dict_flag_to_primary_repr'),('table lookup','get_json_data')],['parse(line)']))
L.append(p('C03','Different spellings of the same invocation get the same annotations',
 'Command lines that differ only in which synonym of a flag or option they use, in bundling one-letter flags or writing them apart, or in shell quoting, are parsed to equal invocations and get equal input-output information, applied result, side-effect verdict and parallelizability information.',
 ['inputs'],'every pair of equivalent spellings of an invocation of every annotated command',
 'No test compares the annotations of two spellings; the annotation tests build invocations by hand with canonical spellings only.',
 [P+'parser.py',P+'command_flag_option_info/data',A,G],[('canonicalisation','parse'),('rules test canonical names','does_flag_option_list_contain_at_least_one_of')],['parse, get_input_output_info_from_cmd_invocation, get_parallelizability_info_from_cmd_invocation']))
L.append(p('C04','Every operand gets the role it has for the command',
 'For every annotated command, each operand is reported with the role the command gives it: file it streams (streaming input), file it writes as stream (streaming output), file it reads or changes otherwise (other input/output), configuration file, or plain string; this is decided by position, number of operands and the flags and options present, for instance first operand of grep, sed and awk is a string unless a program or pattern is given by an option, mv without -t reads all but the last operand and writes the last, uniq writes its second operand, tee streams out to all, rm and mkfifo change all, tr, seq and xargs take strings only.',
 ['inputs','configurations'],'every annotated command, every combination of the flags and options that matter, any number of operands, any operand text',
 'Tests cover 10 of 30 commands with one or two operand counts each.',
 [G,D+'InputOutputInfo.py'],[('per-command rules','InputOutputInfoGenerator*.generate_info'),('operand typer','InputOutputInfo')],['get_input_output_info_from_cmd_invocation(inv).apply_input_output_info_to_command_invocation(inv).operand_list']))
L.append(p('C05','Standard input and output are reported as streams exactly when used',
 'An invocation is reported to implicitly stream from standard input exactly when the command reads it because no input file is named (or because it always reads it, as tr, tee, xargs, col do), and to implicitly stream to standard output exactly when it writes its result there, i.e. not with an explicit output (sort -o, second operand of uniq), not when silent (grep -q), and not for commands without output (mv, rm, mkfifo).',
 ['inputs','configurations'],'every annotated command, every combination of the flags and options that matter, any number of operands',
 'Tests check the implicit streams of 10 commands on a few fixed invocations.',
 [G,D+'InputOutputInfo.py'],[('implicit stdin','set_implicit_use_of_stdin'),('implicit stdout','set_implicit_use_of_stdout'),('no operands','if_no_operands_given_stdin_implicitly_used')],['implicit_use_of_streaming_input/output of the information and of the applied invocation']))
L.append(p('C06','Option arguments get their declared role and side effects are flagged',
 'The argument of an option that names a file or directory is reported as a file with the access the option has (configuration, streaming, container of input names, excludes, other input, streaming output, other output), every other option argument as plain string, each attached to its own option. The information says that there are outputs other than streams exactly when some option argument or operand has other-output access (mv, rm, mkfifo with operands, mv -t, sort -T).',
 ['inputs','configurations'],'every option of every annotated command with any argument text, in any position among other flags and options',
 'Only sort -o, grep -f and mv -t occur in tests; the access of the other file options and has_other_outputs are untested.',
 [G+'InputOutputInfoGenerator_Interface.py',D+'InputOutputInfo.py',T+'AccessKind.py',P+'command_flag_option_info/data'],[('option typer','get_dict_option_to_class_for_arg'),('side effects','InputOutputInfo.has_other_outputs'),('access names','get_access_from_string')],['flag_option_list of the applied invocation, has_other_outputs()']))
L.append(p('C07','Applying input-output information changes roles only, never the command',
 'Applying the information to the invocation keeps the command name, the flags and options and their order, and the text of every operand and option argument; it only attaches types and access. A file argument "-" becomes the standard input if it is read and the standard output if it is written, any other file argument stays a file with the same name, and a plain string stays the same string even if it is "-". Access kinds are disjoint, and each is either an input or an output.',
 ['inputs'],'every annotated invocation and any argument texts ("-", empty, blanks, quotes, non-ASCII), every access kind',
 'Tests count the operands with some access; they do not compare texts, and "-" never occurs.',
 [D+'InputOutputInfo.py','pash_annotations/util.py',T+'AccessKind.py'],[('apply','apply_input_output_info_to_command_invocation'),('"-"','compute_actual_el_for_input, compute_actual_el_for_output')],['applied CommandInvocationWithIO']))
L.append(p('C08','Unknown or ill-formed invocations are never annotated and never crash',
 'For every invocation, parsed or built by hand, both annotation queries return information or nothing, and never raise. Nothing is returned for commands that are not annotated and for invocations the command would refuse or whose effects are outside the model (comm without exactly two operands, uniq with more than two, a program operand missing for grep, sed or awk, set_diff without exactly one operand, mv without operands or with several -t, wc --files0-from, sed -i, recursive grep without files).',
 ['inputs','configurations'],'every command name (annotated, registered without rules, unknown, names of internal helpers) with any flags, options and number of operands, also hand-built invocations with flags and options the table does not know',
 'Tests only query well-formed invocations of known commands.',
 [A,G,P+'util_parser.py'],[('registry','DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES'),('fail-safe','get_input_output_info_from_cmd_invocation'),('fail-safe','get_parallelizability_info_from_cmd_invocation')],['return value or exception of both queries and of parse']))
L.append(p('C09','Every advertised implemented parallelization computes the sequential result',
 'If an invocation is advertised to be parallelizable by a fully implemented plan, then for every input split at line boundaries as the plan says (consecutive chunks, round-robin blocks put back in order, or round-robin blocks in any order), running the plan\'s mapper on every part and combining the results with the plan\'s aggregator gives exactly the output of the sequential command. This holds for every number of parts, every distribution of lines (also empty parts) and every order in which the aggregator tree is evaluated.',
 ['inputs','schedules','configurations'],'every invocation of the modelled commands (cut, tr, custom_tr, grep, sed, sort, uniq, col, xargs, set_diff and those without plan), every text up to the bound, every split, every block order and aggregation tree',
 'Tests check that certain plans are advertised; none runs a plan or relates it to what the command computes.',
 [G,D+'parallelizability'],[('advertised plans','ParallelizabilityInfoGenerator*.generate_info'),('mapper','MapperSpec.get_mapper'),('aggregator','AggregatorSpec.get_aggregator')],['unpack_info(), get_actual_mapper, get_actual_aggregator']))
L.append(p('C10','The parallelization plans offered are those specified for command and flags',
 'For every invocation the list of plans (splitting method, mapper, aggregator, extra streams from mapper to aggregator, implemented or not) and their order is the one specified for the command and its flags: stateless commands get chunk and round-robin plans with concatenation, sort a chunk plan with merge, and flags or operands that make lines depend on each other (e.g. grep -q -A -B -C -m -z, sort -c -m -s -u -z -R, uniq -d -D, tr squeezing or deleting newlines, sed scripts with d or q) remove the plan or replace it by the special one. A round-robin plan that restores order is only ever combined with concatenating or adjacent-line aggregators.',
 ['inputs','configurations'],'every command with parallelizability rules, every combination of the flags and options that matter, any operands',
 'Tests check 20 flag combinations of 6 commands.',
 [G,D+'ParallelizabilityInfo.py',D+'parallelizability/Parallelizer.py'],[('rules','ParallelizabilityInfoGenerator*.generate_info'),('sanity check','Parallelizer.__init__')],['get_parallelizability_info_from_cmd_invocation(inv): plans and their parts']))
L.append(p('C11','Commutativity is only claimed when true and inferred plans are stable',
 'An invocation is marked commutative only if permuting the lines of its input never changes its output. The plans obtained by unpacking are the stored ones, plus, for commutative invocations, one order-free round-robin copy of every chunk plan with the same mapper and aggregator and nothing else; asking again, any number of times and whatever the caller made of earlier answers, gives the same answer and leaves the stored plans unchanged.',
 ['inputs','histories'],'every invocation and input of the modelled commands; every hand-built list of plans, and every sequence of queries',
 'No test permutes inputs, reads the commutativity mark after flags that exclude it, or unpacks twice.',
 [D+'ParallelizabilityInfo.py',G+'ParallelizabilityInfoGeneratorSort.py',D+'parallelizability/Parallelizer.py'],[('mark','set_commutative'),('inference','get_inferred_parallelizer_list'),('copy','make_parallelizer_round_robin_with_unwrap_from_other')],['unpack_info(), is_commutative, parallelizer_list']))
L.append(p('C12','An instantiated mapper reads and writes exactly the streams it is given',
 'Instantiating the mapper of an implemented plan for an invocation with one streaming input and one streaming output gives the same command (or the specified mapper command) with the same flags and operands (or those specified), in which the streaming input and output are replaced by the given ones and nothing else; with auxiliary outputs the operands are input, output and auxiliary outputs in this order. The original invocation is not changed, the access of every stream mentioned is recorded and of no other, and a mapper that is not implemented yields nothing.',
 ['inputs','histories'],'every invocation shape (streams as operand, option argument or implicit), every plan, every stream numbering, every sequence of instantiations from the same plan and invocation',
 'test_ann_gen_sort instantiates mappers for two invocations; auxiliary outputs, option streams and repeated use are untested.',
 [D+'parallelizability/MapperSpec.py',D+'parallelizability/Mapper.py',D+'parallelizability/Parallelizer.py',T+'CommandInvocationWithIOVars.py'],[('instantiate','MapperSpec.get_mapper'),('substitute','substitute_inputs_and_outputs_in_cmd_invocation')],['get_actual_mapper(...): command, flags, operands, implicit streams, access map']))
L.append(p('C13','An instantiated aggregator combines exactly the streams it is given',
 'Instantiating the aggregator of an implemented plan gives a command that streams in exactly the given inputs, in the given order, as operands and streams out to exactly the given output: cat for concatenation, the original command with the specified flags (for sort: the ordering flags plus -m, no explicit output) or the specified command otherwise; two-input aggregators with auxiliary streams get first input, its auxiliary inputs, second input, its auxiliary inputs, output and auxiliary outputs in this order. Accesses are recorded for exactly the streams mentioned, the original invocation and the arguments are not changed, and a two-input aggregator refuses other numbers of inputs.',
 ['inputs','histories'],'every plan, invocation shape, number and numbering of inputs, and every sequence of instantiations',
 'test_ann_gen_sort instantiates one aggregator; other kinds, explicit outputs, auxiliary streams and repetition are untested.',
 [D+'parallelizability/AggregatorSpec.py',D+'parallelizability/Aggregator.py',T+'CommandInvocationWithIOVars.py'],[('instantiate','get_aggregator'),('with auxiliary streams','get_actual_2_ary_aggregator_with_aux'),('cat','make_cat_command_invocation_with_io_vars')],['get_actual_aggregator(...), get_actual_2_ary_aggregator_with_aux(...)']))
L.append(p('C14','Editing the streams of an invocation keeps it consistent',
 'After any sequence of substituting inputs or outputs, replacing a stream, removing streaming inputs or outputs, the invocation mentions exactly the streams it records an access for, each with the access of the stream it replaced; strings, names, flags and the order of everything else are unchanged, and an option whose stream is removed is gone with it. The reported inputs and outputs, the operands and options selected by access, and the side-effect verdict are those of the streams mentioned, in the order options, operands, implicit input, implicit output; queries change nothing, substitution with the wrong number of streams is refused, and arguments of the caller are not changed.',
 ['histories','inputs'],'every invocation shape with streams as option arguments, operands and implicit, and every sequence of edits and queries with fresh streams',
 'The class is only used indirectly by two tests; no test edits twice or has an option stream.',
 [T+'CommandInvocationWithIOVars.py',T+'BasicDatatypesWithIOVar.py'],[('traversal','flat_map_anything_non_names'),('edits','replace_var, substitute_*, remove_streaming_*'),('queries','generate_inputs, generate_outputs, has_other_outputs, get_operands_with_*, get_options_with_other_output')],['attributes and return values of CommandInvocationWithIOVars'],
 [('access map','access of every stream mentioned','CommandInvocationWithIOVars.access_map')]))
L.append(p('C15','Flag-list transformers do exactly what their kind says',
 'Transforming a list of flags and options keeps it as is (same), appends the given entries that are not yet in it (add), drops (remove) or keeps (filter) exactly the entries with the given names including repetitions and arguments, empties it (empty) or replaces it (custom), and a chain applies its parts from left to right; the order of kept entries never changes. The list passed in and the transformer are never changed, so applying it again gives the same result.',
 ['inputs','histories'],'every list of flags and options (also repeated ones and options with string or stream arguments) and every chain of transformers, applied any number of times',
 'No test exercises the transformers except one filter-and-add chain on one list.',
 [D+'parallelizability/TransformerFlagOptionList.py','pash_annotations/util.py'],[('apply','get_flag_option_list_after_transformer_application'),('chain','foldl')],['result list, input list afterwards']))
L.append(p('C16','Answers depend only on the invocation asked about, not on history',
 'Parsing a line and both annotation queries give the same answer at any time and in any order, whatever was parsed, queried, applied, unpacked or instantiated before, for this or other commands. Queries never change the invocation they are asked about, and changing a returned result never affects later answers.',
 ['histories'],'every sequence of parse, query, apply, unpack and instantiate operations over a set of invocations, with results being modified in between',
 'Every test makes one query on fresh objects.',
 [A,P+'parser.py',G,D+'InputOutputInfo.py',D+'ParallelizabilityInfo.py'],[('fresh generator per query','get_*_info_from_cmd_invocation'),('fresh table per query','get_json_data')],['results of repeated queries and the invocation afterwards']))
L.append(p('C17','The command-line tool never overwrites and never loses its report',
 'The tool\'s report shows the command line, the parsed invocation, its input-output information (or that there is none, or that there are outputs other than streams) and its parallelizability information, consistent with the library\'s answers. With a file to save to (relative to the caller\'s directory), the complete report is stored if nothing exists there, and otherwise, or if it cannot be stored, it is printed; an existing file is never changed, even if it appears while the tool runs, and no other file is created or changed.',
 ['inputs','schedules','configurations'],'every state of the target path (absent, file, directory, missing parent, symlink, unwritable), every moment at which another process creates the file, every working directory, command lines of every kind',
 'The tool has no tests.',
 ['pash_annotations/annotation_cli.py'],[('saving','annotation_cli.py, end'),('report','annotation_cli.py')],['files before and after, standard output, exit status']))
L.append(p('C18','The man-page converter turns option lines into a usable option table',
 'For option lines as in man pages (spellings separated by ", ", that is, dashes followed by lower-case letters, digits and dashes or by one upper-case letter, each optionally followed by an argument of upper-case letters after blanks or "=", also in brackets), the converter lists a line without argument as one flag entry with its spellings in order and a line with argument as one option entry with its spellings followed by the argument. Spellings that already occurred are not repeated, other lines are ignored, and the table produced is well-formed JSON that the parser can use, in which no one-letter or bare word becomes a flag by accident.',
 ['inputs'],'every sequence of option lines of this form, mixed with other lines',
 'The converter has no tests.',
 [P+'command_flag_option_info/args-to-json.py'],[('line matching','find_matches'),('table','parse_args')],['standard output for given standard input'],
 [('past flags','spellings seen so far','parse_lines')]))
L.append(p('C19','The shipped option tables are unambiguous and say what the commands accept',
 'In the table of every command each spelling belongs to one flag or one option only, has the form of an option, and is canonicalised to a spelling of the same entry, which is itself canonical. Options take an argument exactly if the command requires one as the following word; options whose argument names a file have a known access, and the known spellings are those the command documents.',
 ['configurations'],'every table, every spelling (as behaviour of the parser on it, alone and followed by a word), for every command',
 'Three tables are touched by parser tests, with six spellings.',
 [P+'command_flag_option_info/data',P+'parser.py'],[('tables','command_flag_option_info/data/*.json'),('lookup','get_json_data')],['parse of "<command> <spelling>" and "<command> <spelling> <word>" and annotations thereof']))
L.append(p('C20','Equality of invocations and annotations is structural',
 'Two parsed invocations, annotated invocations, information objects\' parts, plans, transformers, splitters or streams are equal exactly if they have the same kind and equal parts (names, arguments, order, access, kind); in particular a flag never equals an option or operand of the same name, a file never equals a string or standard stream, and the same file with different access is different. Equality is reflexive, symmetric and transitive, and copies are equal.',
 ['inputs'],'all pairs of values built from a set of names, arguments and access kinds, of every data type',
 'Tests use equality as oracle; they never check that different values differ.',
 ['pash_annotations/util_standard.py',T+'BasicDatatypes.py',T+'BasicDatatypesWithIO.py',T+'AccessKind.py',D+'parallelizability'],[('structural equality','standard_eq')],['== on values']))
L.append(p('C21','Annotation rules written with the generator interface mean what they say',
 'A new command can be annotated with an option table and rules: for every table, invocation and rule, each call about operands gives exactly the operands it names the role it names and leaves all others alone, option arguments get the access of the table, and implicit streams are used exactly if set; conditions hold exactly for the flags, options and operands given. A rule for plans gives exactly the plans appended, in order, each with the splitter, mapper, aggregator, information for the mapper and number of auxiliary streams asked for or their defaults; round robin with an aggregator that needs the order is refused, as are unknown options. The annotated invocation lists its parts by role accordingly.',
 ['inputs'],'every sequence of calls of the generators\' interface under conditions, for every invocation of a command with options of every access',
 'Tests use a few calls in the generators of two test commands, and never a condition, an option access or a plan of one\'s own.',
 [G+'Generator_Interface.py',G+'InputOutputInfoGenerator_Interface.py',G+'ParallelizabilityInfoGenerator_Interface.py',D+'InputOutputInfo.py',D+'parallelizability/Parallelizer.py',T+'CommandInvocationWithIO.py'],[('roles','InputOutputInfo, all_*, only_*, set_*'),('option access','get_dict_option_to_class_for_arg'),('plans','append_to_parallelizer_list_*, make_parallelizer_*'),('lists by role','CommandInvocationWithIO.get_operands_with_*')],['generate_info() of a subclass, get_info(), get_cmd_inv_with_io(inv)']))
L.append(p('C22','Values of the data types say what they are, and are made as asked',
 'Exactly one kind predicate of an access holds and exactly one of input and output, exactly one of an aggregator, and at most one of a splitter; names, arguments, accesses, parts and selections asked of a value are those it was made of, in order, and asking changes nothing. The factories make exactly the value their name and arguments say, with the documented default for what is left out (same as sequential, concatenate, not implemented, no additional input, none auxiliary), every time a new one; a text is taken for an access only if it is the name of one. Refused are plain round robin with an aggregator that does not respect the order, a same-as-sequential mapper with a command or transformer, and inputs asked of what has none.',
 ['inputs'],'every call of the accessors, predicates, factories and helper functions of the data types with arguments built from a set of names, kinds and parts',
 'Tests call a dozen of these functions with fixed arguments, as means to other ends.',
 [T+'AccessKind.py',T+'BasicDatatypes.py',T+'BasicDatatypesWithIO.py',T+'CommandInvocationWithIO.py',D+'Inputs.py',D+'CommandProperties.py',D+'ParallelizabilityInfo.py',D+'parallelizability','pash_annotations/util.py','pash_annotations/util_flag_option.py'],[('predicates','AccessKind.is_*, Splitter.is_*, AggregatorSpec.is_*'),('factories','make_*'),('defaults','return_*_if_none_else_itself')],['answers of the functions']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title'])); assert x['statement'].count('. ')<=2,(x['id'])
print(len(L))
