#pragma once
#include <spot/standin.hh>
