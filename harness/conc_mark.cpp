// Linked directly before the instrumented objects: the writable data from here on is theirs.
extern "C" {
char conc_data_begin = 1;
char conc_bss_begin = 0;
}
