#pragma once
#include "../standin.hh"
