#pragma once // not used by what the explorer includes
