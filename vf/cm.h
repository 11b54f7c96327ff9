/* crashmail's own headers plus the harness interface */
#include "crashmail/crashmail.h"
#include "h.h"
#include "vfs.h"
