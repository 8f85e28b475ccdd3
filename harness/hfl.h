/* Initialisation of the parts of the fl executable a harness uses (same order as Init() in initialize.c). */
extern int LG_TBL_SIZE;
extern vossrc_rec default_vossrc[];
extern str_mgr strings;
static void h_fl_base(void) {
    setenv("VOSS-LIBRARY-DIRECTORY", "/nonexistent", 1); setenv("VOSS-BINARY-DIRECTORY", "/nonexistent", 1);
    Init_strmgr(); new_strmgr(stringsp);
    initRC(default_vossrc, NULL, NULL);
    Init_symb_tbl(); Init_arbi(); gui_mode = FALSE; srandom(1);
}
static void h_fl_bdd(int lg) { LG_TBL_SIZE = lg; B_Init(); }
