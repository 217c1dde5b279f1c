"""What is left unchecked: COMMON for every property, and per property.  Copied into each evidence file."""
COMMON = [
    "the extraction to C (vt/extract.py) preserves meaning: token rewrites listed under extraction.rewrites; functions it drops are listed under extraction.dropped",
    "C library functions are replaced by contracts written from the C standard (malloc, strlen, sprintf, strtol, fopen/fread/fwrite, qsort); the real library is assumed to meet them",
    "memory never runs out (allocation failure paths are not part of any property)",
    "int is 32 bits and wraps; obligations about signed overflow are off in most jobs (the sources rely on wrap around)",
    "a caller is checked against contracts or stubs of its callees; each stub used for a function of /repo is the contract proved for it in another job, or is listed below",
    "flex and bison: that the generated scanner matches the longest rule and the generated parser runs the action of the reduced production is assumed; the grammar itself is exercised by the bounded stand-in programs only",
    "composition of the per function contracts into the whole program statement is by hand; the bounded stand-in (random and fixed programs against an independent reference, on a g++ build of /repo) samples it and is not counted as proof",
    "single threaded execution; files do not change during a run",
]
EXTRA = {
 "P01": ["that the scanner returns the token of a mnemonic for any letter case is sampled, not proved"],
 "P02": ["the operand value comes from a stub of expand_node that returns any value (P06 decides the value)"],
 "P03": ["convergence of the passes is sampled; generate_output and generate_list_node are ghost ledgers in the handler's job, their contracts are proved in P02 and P20"],
 "P04": ["data lists are walked for up to 3 items per node (bounded); the advance of each statement is composed over the program by hand"],
 "P05": ["symbol initialisation is an input of the job (has_uninitialized_symbol is a stub returning either answer)"],
 "P06": ["precedence and associativity come from the bison tables and are sampled"],
 "P07": ["lists are walked for up to 3 items per node; expand_node is a stub returning any value"],
 "P08": ["fopen, fgetc and feof follow the C standard's stream model, with a file of any length up to the verifier's int"],
 "P09": ["fwrite and fputc append to the file or report a short write"],
 "P10": ["expand_node of the body and the condition are stubs: any body, any sequence of condition values"],
 "P11": ["the emitted nodes are interpreted by an abstract machine for X/Y, compare and branch; the encoding of each node is P01/P02/P03", "the body does not change the loop register, the carry flag between decrement and test, or the open finding's case"],
 "P12": ["text of the body is parsed once and expanded as a tree; names inside are resolved at the first expansion (documented limitation)", "arguments 0..65535; recursive macros are not supported by the program"],
 "P13": ["the dictionary is a contract here (P15)", "names in the name building jobs are at most 3 characters (bounded)"],
 "P14": ["qsort sorts by the comparison function it is given (whose order is proved total on the table's fields)"],
 "P15": ["the hash is any function of the key; grow, delete and text equality are bounded"],
 "P16": ["item sizes 1, 4, 16 and 48"],
 "P17": ["the decoded bytes are proved for strings of up to 5 characters only; memory safety for any length"],
 "P18": ["the exit status of the process is main's return value modulo 256"],
 "P19": ["strtol follows the C standard", "lists of up to 48 arguments"],
 "P20": ["rows of the unit are formatted through sprintf at the end of the text so far; a number formatted with %0nX is shown with its n hexadecimal digits", "strings of up to 5 bytes, lists of up to 4 rows and listings of up to 3 rows over 2 files of up to 3 lines (bounded)", "the union of a syntax tree node is treated as a struct in the string rows' jobs"],
 "P21": ["qsort sorts by the comparison function it is given", "at most 1000 buckets of up to 3 symbols"],
 "P22": ["flex's buffer stack (yypush_buffer_state, yypop_buffer_state) is last in first out", "the search is exhaustive for directory lists of up to 6 characters (bounded)"],
 "P23": ["operators of up to 8 children and strings of up to 6 characters (bounded)"],
 "P24": ["flex runs the rule that matches in the current start condition"],
}
