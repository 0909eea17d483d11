// The command line program, put here whenever the harness is built.
//INCLUDE "/repo/cli/bin/src/main.rs"
