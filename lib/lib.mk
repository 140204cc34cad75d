# Builds the library objects of /repo's own makefile fragment with the checker's flags.
# usage: make -f lib.mk PORTABLE=/repo OBJDIR=... XCFLAGS=... libpl.a
include $(PORTABLE)/portablelib.mk
XFL := $(filter-out -fsanitize=% -W% -g -O%,$(CFLAGS)) -w $(XCFLAGS)
XXFL := -std=c++17 $(XFL)
objs := $(addprefix $(OBJDIR)/,$(sort $(libobjs)))
$(OBJDIR)/libpl.a: $(objs)
	rm -f $@
	$(AR) rc $@ $(objs)
$(OBJDIR)/%.o: %.c
	$(CC) $(XFL) -c -o $@ $<
$(OBJDIR)/%.o: %.cpp
	$(CXX) $(XXFL) -c -o $@ $<
.PHONY: flags
flags:
	@echo $(XFL)
