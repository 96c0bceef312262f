// C35, structures with a stored form.
#include "shared.hpp"
SUBJECTS_SERIAL(SCOPE_SHARED)
SUBJECTS_SERIAL(SCOPE_PAIR)
