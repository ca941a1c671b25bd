// Fixture: data only.
extern "C" { int fx5_table[600] = {1, 2, 3}; extern int const fx5_const[40]; int const fx5_const[40] = {4, 5};
char fx5_bss[30000]; }
