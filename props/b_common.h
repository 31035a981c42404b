// What the checks of the whole library share.
#pragma once

#include "../sim/sim.h"
#include <openssl/evp.h>
#include <string>

// dcp::init() with the lists of the repository
void b_setup();
// where the repository is
std::string b_repository();

// digest as stored in packing lists, by way of OpenSSL alone
std::string b_digest(std::string const& bytes);
