#pragma once
// Dependency stand-in (nothing of it is used by the code under contract).
