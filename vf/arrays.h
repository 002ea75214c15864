extern char *prinames[5];
