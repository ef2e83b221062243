/* Wine has this header in lower case only. */
#include <tlhelp32.h>
