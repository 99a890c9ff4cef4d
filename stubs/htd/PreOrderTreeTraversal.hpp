#include "htd/main.hpp"
