// Included but not used by the code under check.
#pragma once
