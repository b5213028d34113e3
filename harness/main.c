/* main.c : the real program */
int libsgrid_main(int argc,char **argv);
int main(int argc,char **argv){ return libsgrid_main(argc,argv); }
