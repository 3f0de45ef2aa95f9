/* Stand-in for gnulib's progname module (the only gnulib symbol the programs need). */
const char *program_name = 0;
void set_program_name(const char *argv0) { program_name = argv0; }
