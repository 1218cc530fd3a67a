------------------------------ MODULE Commands ------------------------------
(* Commands of the Python API: a command is built from a text (words) and edited by methods; running it has the effect of the
   same arguments given to the shell, edits overriding the text. Words are strings; flags have no value, other options have one. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Flags == {"-B", "-X", "-K", "-A", "--createIntertable", "--interpolationParallel", "--checkConf", "--underApi"}
(* pairs [o, v] as an argument parser reads them: value "" for flags *)
RECURSIVE Parsed(_)
Parsed(words) ==
    IF words = << >> THEN << >>
    ELSE IF Head(words) \in Flags \/ Len(words) = 1 THEN <<[o |-> Head(words), v |-> ""]>> \o Parsed(Tail(words))
    ELSE <<[o |-> words[1], v |-> words[2]]>> \o Parsed(SubSeq(words, 3, Len(words)))

(* meaning of options, in their spellings, and of methods *)
Both(s, l, m) == s :> m @@ l :> m
Meaning == Both("-s", "--start", "start") @@ Both("-e", "--end", "end") @@ Both("-m", "--perturbationNumber", "member")
           @@ Both("-T", "--dataTime", "time") @@ Both("-D", "--dataDate", "date") @@ Both("-n", "--namePrefix", "prefix")
           @@ Both("-f", "--fmap", "fmap") @@ Both("-x", "--ext", "ext") @@ Both("-F", "--format", "format")
           @@ Both("-S", "--scaleFactor", "scale") @@ Both("-O", "--offset", "offset") @@ Both("-vm", "--validMin", "vmin")
           @@ Both("-vM", "--validMax", "vmax") @@ Both("-vf", "--valueFormat", "vformat") @@ Both("-U", "--outputStepUnits", "units")
           @@ Both("-N", "--intertableDir", "tabledir") @@ Both("-G", "--geopotentialDir", "geodir") @@ Both("-o", "--outDir", "outdir")
           @@ Both("-c", "--commandsFile", "file") @@ Both("-i", "--inputFile", "input") @@ Both("-I", "--inputFile2", "input2")
           @@ Both("-l", "--loggerLevel", "loglevel") @@ Both("-B", "--createIntertable", "create")
           @@ Both("-X", "--interpolationParallel", "parallel") @@ Both("-A", "--underApi", "api") @@ Both("-d", "--logDir", "logdir")
Method == [cmdpath |-> "file", inputfile |-> "input", second_input_file |-> "input2", eps |-> "member", tend |-> "end", tstart |-> "start",
           datatime |-> "time", datadate |-> "date", ext |-> "ext", fmap |-> "fmap", outdir |-> "outdir", nameprefix |-> "prefix",
           scaleFactor |-> "scale", offset |-> "offset", validMax |-> "vmax", validMin |-> "vmin", valueFormat |-> "vformat",
           log_level |-> "loglevel", out_format |-> "format", outputStepUnits |-> "units", create_intertable |-> "create",
           parallel |-> "parallel", intertable_dir |-> "tabledir"]
(* arguments [o: meaning, v], in order: the last one of an option is used *)
Arguments(words, edits) ==
    LET p == Parsed(words)
    IN [k \in 1 .. Len(p) |-> [o |-> Meaning[p[k].o], v |-> p[k].v]] \o [k \in 1 .. Len(edits) |-> [o |-> Method[edits[k].m], v |-> edits[k].v]]
=============================================================================
