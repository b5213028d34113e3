# appended to sgrid's own Makefile (make -f Makefile -f v.mk): builds all
# modules in parallel instead of one after the other
vdirs:
	for X in $(libnames); do mkdir -p lib/obj/$$X; done
$(addprefix V_,$(filter-out src/main/main,$(libpaths))): V_%: vdirs
	$(MAKE) -C $*
V_src/main/main: $(addprefix V_,$(filter-out src/main/main,$(libpaths)))
	$(MAKE) -C src/main/main
vall: V_src/main/main
