------------------------------- MODULE Tables -------------------------------
(* The option table of every command: the spellings of each flag, and of     *)
(* each option which takes the next word as its argument, the canonical      *)
(* spelling first.  file is the access of the argument if it names a file    *)
(* or directory.  Agrees with the documentation of the commands for all      *)
(* spellings listed.                                                         *)
EXTENDS Text

Table == [
  awk |-> [
    flags |-> <<<<"-b", "--characters-as-bytes">>,
        <<"-c", "--traditional">>,
        <<"-C", "--copyright">>,
        <<"-d", "--dump-variables">>,
        <<"-D", "--debug">>,
        <<"-g", "--gen-pot">>,
        <<"-h", "--help">>,
        <<"-L", "--lint">>,
        <<"-M", "--bignum">>,
        <<"-n", "--non-decimal-data">>,
        <<"-N", "--use-lc-numeric">>,
        <<"-o", "--pretty-print">>,
        <<"-O", "--optimize">>,
        <<"-p", "--profile">>,
        <<"-P", "--posix">>,
        <<"-r", "--re-interval">>,
        <<"-S", "--sandbox">>,
        <<"-t", "--lint-old">>,
        <<"-V", "--version">>>>,
    options |-> <<[sp |-> <<"-f", "--file">>, file |-> "CONFIG_INPUT"],
        [sp |-> <<"-F", "--field-separator">>, file |-> "none"],
        [sp |-> <<"-v", "--assign">>, file |-> "none"],
        [sp |-> <<"-e", "--source">>, file |-> "none"],
        [sp |-> <<"-E", "--exec">>, file |-> "CONFIG_INPUT"],
        [sp |-> <<"-i", "--include">>, file |-> "none"],
        [sp |-> <<"-l", "--load">>, file |-> "none"]>>],
  cat |-> [
    flags |-> <<<<"-A", "--show-all">>,
        <<"-b", "--number-nonblank">>,
        <<"-e", "-vE">>,
        <<"-E", "--show-ends">>,
        <<"-n", "--number">>,
        <<"-s", "--squeeze-blank">>,
        <<"-t", "-vT">>,
        <<"-T", "--show-tabs">>,
        <<"-u">>,
        <<"-v", "--show-nonprinting">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<>>],
  col |-> [
    flags |-> <<<<"-b", "--no-backspaces">>,
        <<"-f", "--fine">>,
        <<"-h", "--tabs">>,
        <<"-p", "--pass">>,
        <<"-x", "--spaces">>,
        <<"-V", "--version">>,
        <<"-H", "--help">>>>,
    options |-> <<[sp |-> <<"-l", "--lines">>, file |-> "none"]>>],
  comm |-> [
    flags |-> <<<<"-1">>,
        <<"-2">>,
        <<"-3">>,
        <<"--check-order">>,
        <<"--nocheck-order">>,
        <<"--total">>,
        <<"-z", "--zero-terminated">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"--output-delimiter">>, file |-> "none"]>>],
  custom_sort |-> [
    flags |-> <<>>,
    options |-> <<>>],
  custom_tr |-> [
    flags |-> <<>>,
    options |-> <<>>],
  cut |-> [
    flags |-> <<<<"-n">>,
        <<"--complement">>,
        <<"-s", "--only-delimited">>,
        <<"-z", "--zero-terminated">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-b", "--bytes">>, file |-> "none"],
        [sp |-> <<"-c", "--characters">>, file |-> "none"],
        [sp |-> <<"-d", "--delimiter">>, file |-> "none"],
        [sp |-> <<"-f", "--fields">>, file |-> "none"],
        [sp |-> <<"--output-delimiter">>, file |-> "none"]>>],
  diff |-> [
    flags |-> <<<<"--normal">>,
        <<"-c", "--context">>,
        <<"-u", "--unified">>,
        <<"-q", "--brief">>,
        <<"-s", "--report-identical-files">>,
        <<"-e", "--ed">>,
        <<"-n", "--rcs">>,
        <<"-y", "--side-by-side">>,
        <<"--left-column">>,
        <<"--suppress-common-lines">>,
        <<"-p", "--show-c-function">>,
        <<"-t", "--expand-tabs">>,
        <<"-T", "--initial-tab">>,
        <<"--suppress-blank-empty">>,
        <<"-l", "--paginate">>,
        <<"-r", "--recursive">>,
        <<"--no-dereference">>,
        <<"-N", "--new-file">>,
        <<"--unidirectional-new-file">>,
        <<"--ignore-file-name-case">>,
        <<"--no-ignore-file-name-case">>,
        <<"-i", "--ignore-case">>,
        <<"-E", "--ignore-tab-expansion">>,
        <<"-Z", "--ignore-trailing-space">>,
        <<"-b", "--ignore-space-change">>,
        <<"-w", "--ignore-all-space">>,
        <<"-B", "--ignore-blank-lines">>,
        <<"-a", "--text">>,
        <<"--strip-trailing-cr">>,
        <<"-d", "--minimal">>,
        <<"--speed-large-files">>,
        <<"--color">>,
        <<"--help">>,
        <<"-v", "--version">>>>,
    options |-> <<[sp |-> <<"-C">>, file |-> "none"],
        [sp |-> <<"-U">>, file |-> "none"],
        [sp |-> <<"-W", "--width">>, file |-> "none"],
        [sp |-> <<"-F", "--show-function-line">>, file |-> "none"],
        [sp |-> <<"--label">>, file |-> "none"],
        [sp |-> <<"--tabsize">>, file |-> "none"],
        [sp |-> <<"-x", "--exclude">>, file |-> "none"],
        [sp |-> <<"--exclude-from", "-X">>, file |-> "EXCLUDES_FROM_INPUT"],
        [sp |-> <<"-S", "--starting-file">>, file |-> "OTHER_INPUT"],
        [sp |-> <<"--from-file">>, file |-> "STREAM_INPUT"],
        [sp |-> <<"--to-file">>, file |-> "STREAM_INPUT"],
        [sp |-> <<"-I", "--ignore-matching-lines">>, file |-> "none"],
        [sp |-> <<"-D", "--ifdef">>, file |-> "none"],
        [sp |-> <<"--old-group-format">>, file |-> "none"],
        [sp |-> <<"--new-group-format">>, file |-> "none"],
        [sp |-> <<"--unchanged-group-format">>, file |-> "none"],
        [sp |-> <<"--changed-group-format">>, file |-> "none"],
        [sp |-> <<"--old-line-format">>, file |-> "none"],
        [sp |-> <<"--new-line-format">>, file |-> "none"],
        [sp |-> <<"--unchanged-line-format">>, file |-> "none"],
        [sp |-> <<"--line-format">>, file |-> "none"],
        [sp |-> <<"--horizon-lines">>, file |-> "none"],
        [sp |-> <<"--palette">>, file |-> "none"]>>],
  export |-> [
    flags |-> <<<<"-f">>,
        <<"-n">>,
        <<"-p">>>>,
    options |-> <<>>],
  grep |-> [
    flags |-> <<<<"--help">>,
        <<"-V", "--version">>,
        <<"-E", "--extended-regexp">>,
        <<"-F", "--fixed-strings">>,
        <<"-G", "--basic-regexp">>,
        <<"-P", "--perl-regexp">>,
        <<"-i", "-y", "--ignore-case">>,
        <<"--no-ignore-case">>,
        <<"-v", "--invert-match">>,
        <<"-w", "--word-regexp">>,
        <<"-x", "--line-regexp">>,
        <<"-c", "--count">>,
        <<"-L", "--files-without-match">>,
        <<"-l", "--files-with-matches">>,
        <<"-o", "--only-matching">>,
        <<"-q", "--quiet", "--silent">>,
        <<"-s", "--no-messages">>,
        <<"-b", "--byte-offset">>,
        <<"-H", "--with-filename">>,
        <<"-h", "--no-filename">>,
        <<"-n", "--line-number">>,
        <<"-T", "--initial-tab">>,
        <<"-u", "--unix-byte-offsets">>,
        <<"-Z", "--null">>,
        <<"--no-group-separator">>,
        <<"-a", "--text">>,
        <<"-I">>,
        <<"-r", "--recursive">>,
        <<"-R", "--dereference-recursive">>,
        <<"--line-buffered">>,
        <<"-U", "--binary">>,
        <<"--color", "--colour">>,
        <<"-z", "--null-data">>,
        <<"-0">>,
        <<"-1">>,
        <<"-2">>,
        <<"-3">>,
        <<"-4">>,
        <<"-5">>,
        <<"-6">>,
        <<"-7">>,
        <<"-8">>,
        <<"-9">>>>,
    options |-> <<[sp |-> <<"-e", "--regexp">>, file |-> "none"],
        [sp |-> <<"-f", "--file">>, file |-> "CONFIG_INPUT"],
        [sp |-> <<"-m", "--max-count">>, file |-> "none"],
        [sp |-> <<"--label">>, file |-> "none"],
        [sp |-> <<"-A", "--after-context">>, file |-> "none"],
        [sp |-> <<"-B", "--before-context">>, file |-> "none"],
        [sp |-> <<"-C", "--context">>, file |-> "none"],
        [sp |-> <<"--group-separator">>, file |-> "none"],
        [sp |-> <<"--binary-files">>, file |-> "none"],
        [sp |-> <<"-D", "--devices">>, file |-> "none"],
        [sp |-> <<"-d", "--directories">>, file |-> "none"],
        [sp |-> <<"--exclude">>, file |-> "none"],
        [sp |-> <<"--exclude-from">>, file |-> "EXCLUDES_FROM_INPUT"],
        [sp |-> <<"--exclude-dir">>, file |-> "none"],
        [sp |-> <<"--include">>, file |-> "none"]>>],
  head |-> [
    flags |-> <<<<"-q", "--quiet", "--silent">>,
        <<"-v", "--verbose">>,
        <<"-z", "--zero-terminated">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-n", "--lines">>, file |-> "none"],
        [sp |-> <<"-c", "--bytes">>, file |-> "none"]>>],
  mkfifo |-> [
    flags |-> <<<<"-Z", "--context">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-m", "--mode">>, file |-> "none"]>>],
  mv |-> [
    flags |-> <<<<"-b", "--backup">>,
        <<"--debug">>,
        <<"-f", "--force">>,
        <<"-i", "--interactive">>,
        <<"-n", "--no-clobber">>,
        <<"--no-copy">>,
        <<"--strip-trailing-slashes">>,
        <<"-T", "--no-target-directory">>,
        <<"-u", "--update">>,
        <<"-v", "--verbose">>,
        <<"-Z", "--context">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-S", "--suffix">>, file |-> "none"],
        [sp |-> <<"-t", "--target-directory">>, file |-> "OTHER_OUTPUT"]>>],
  rm |-> [
    flags |-> <<<<"-f", "--force">>,
        <<"-i">>,
        <<"-I">>,
        <<"--interactive">>,
        <<"--one-file-system">>,
        <<"--no-preserve-root">>,
        <<"--preserve-root">>,
        <<"-r", "-R", "--recursive">>,
        <<"-d", "--dir">>,
        <<"-v", "--verbose">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<>>],
  sed |-> [
    flags |-> <<<<"-n", "--quiet", "--silent">>,
        <<"--debug">>,
        <<"--follow-symlinks">>,
        <<"-i", "--in-place">>,
        <<"--posix">>,
        <<"-E", "-r", "--regexp-extended">>,
        <<"-s", "--separate">>,
        <<"--sandbox">>,
        <<"-u", "--unbuffered">>,
        <<"-z", "--null-data">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-e", "--expression">>, file |-> "none"],
        [sp |-> <<"-f", "--file">>, file |-> "CONFIG_INPUT"],
        [sp |-> <<"-l", "--line-length">>, file |-> "none"]>>],
  seq |-> [
    flags |-> <<<<"-w", "--equal-width">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-f", "--format">>, file |-> "none"],
        [sp |-> <<"-s", "--separator">>, file |-> "none"]>>],
  sort |-> [
    flags |-> <<<<"-b", "--ignore-leading-blanks">>,
        <<"-d", "--dictionary-order">>,
        <<"-f", "--ignore-case">>,
        <<"-g", "--general-numeric-sort">>,
        <<"-i", "--ignore-nonprinting">>,
        <<"-M", "--month-sort">>,
        <<"-h", "--human-numeric-sort">>,
        <<"-n", "--numeric-sort">>,
        <<"-R", "--random-sort">>,
        <<"-r", "--reverse">>,
        <<"-V", "--version-sort">>,
        <<"-c", "--check">>,
        <<"-C">>,
        <<"--debug">>,
        <<"-m", "--merge">>,
        <<"-s", "--stable">>,
        <<"-u", "--unique">>,
        <<"-z", "--zero-terminated">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"--random-source">>, file |-> "CONFIG_INPUT"],
        [sp |-> <<"--sort">>, file |-> "none"],
        [sp |-> <<"--batch-size">>, file |-> "none"],
        [sp |-> <<"--compress-program">>, file |-> "none"],
        [sp |-> <<"--files0-from">>, file |-> "CONTAINER_FOR_INPUT"],
        [sp |-> <<"-k", "--key">>, file |-> "none"],
        [sp |-> <<"-o", "--output">>, file |-> "STREAM_OUTPUT"],
        [sp |-> <<"-S", "--buffer-size">>, file |-> "none"],
        [sp |-> <<"-t", "--field-separator">>, file |-> "none"],
        [sp |-> <<"-T", "--temporary-directory">>, file |-> "OTHER_OUTPUT"],
        [sp |-> <<"--parallel">>, file |-> "none"]>>],
  tail |-> [
    flags |-> <<<<"-f", "--follow">>,
        <<"-F">>,
        <<"-q", "--quiet", "--silent">>,
        <<"--retry">>,
        <<"-v", "--verbose">>,
        <<"-z", "--zero-terminated">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-c", "--bytes">>, file |-> "none"],
        [sp |-> <<"-n", "--lines">>, file |-> "none"],
        [sp |-> <<"--max-unchanged-stats">>, file |-> "none"],
        [sp |-> <<"--pid">>, file |-> "none"],
        [sp |-> <<"-s", "--sleep-interval">>, file |-> "none"]>>],
  tee |-> [
    flags |-> <<<<"-a", "--append">>,
        <<"-i", "--ignore-interrupts">>,
        <<"-p">>,
        <<"--output-error">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<>>],
  tr |-> [
    flags |-> <<<<"-c", "-C", "--complement">>,
        <<"-d", "--delete">>,
        <<"-s", "--squeeze-repeats">>,
        <<"-t", "--truncate-set1">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<>>],
  uniq |-> [
    flags |-> <<<<"-c", "--count">>,
        <<"-d", "--repeated">>,
        <<"-D", "--all-repeated">>,
        <<"--group">>,
        <<"-i", "--ignore-case">>,
        <<"-u", "--unique">>,
        <<"-z", "--zero-terminated">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-f", "--skip-fields">>, file |-> "none"],
        [sp |-> <<"-s", "--skip-chars">>, file |-> "none"],
        [sp |-> <<"-w", "--check-chars">>, file |-> "none"]>>],
  wc |-> [
    flags |-> <<<<"-c", "--bytes">>,
        <<"-m", "--chars">>,
        <<"-l", "--lines">>,
        <<"-L", "--max-line-length">>,
        <<"-w", "--words">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"--files0-from">>, file |-> "none"],
        [sp |-> <<"--total">>, file |-> "none"]>>],
  xargs |-> [
    flags |-> <<<<"--null", "-0">>,
        <<"-e", "--eof">>,
        <<"-i", "--replace">>,
        <<"-l", "--max-lines">>,
        <<"-o", "--open-tty">>,
        <<"-p", "--interactive">>,
        <<"-r", "--no-run-if-empty">>,
        <<"--show-limits">>,
        <<"-t", "--verbose">>,
        <<"-x", "--exit">>,
        <<"--help">>,
        <<"--version">>>>,
    options |-> <<[sp |-> <<"-a", "--arg-file">>, file |-> "OTHER_INPUT"],
        [sp |-> <<"--delimiter", "-d">>, file |-> "none"],
        [sp |-> <<"-E">>, file |-> "none"],
        [sp |-> <<"-I">>, file |-> "none"],
        [sp |-> <<"-L">>, file |-> "none"],
        [sp |-> <<"-n", "--max-args">>, file |-> "none"],
        [sp |-> <<"-P", "--max-procs">>, file |-> "none"],
        [sp |-> <<"-s", "--max-chars">>, file |-> "none"],
        [sp |-> <<"--process-slot-var">>, file |-> "none"]>>]]
=============================================================================
