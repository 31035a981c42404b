#include "b_common.h"
#include "util.h"
#include <libxml/xmlerror.h>
#include <openssl/rand.h>
#include <cstdlib>

using std::string;

static int random_for_openssl(unsigned char* p, int n)
{
	sim::crypto_random_bytes(p, size_t(n));
	return 1;
}

static int always() { return 1; }

static void quiet(void*, char const*, ...) {}

void b_setup()
{
	static bool done = false;
	if (done) return;
	done = true;
	static RAND_METHOD method = {nullptr, random_for_openssl, nullptr, nullptr, random_for_openssl, always};
	RAND_set_rand_method(&method);
	// damaged documents are expected
	xmlSetGenericErrorFunc(nullptr, quiet);
	dcp::init(boost::filesystem::path(b_repository()));
}

string b_repository()
{
	char const* repo = getenv("VERIF_REPO");
	return repo ? repo : "/repo";
}

string b_digest(string const& bytes)
{
	unsigned char md[EVP_MAX_MD_SIZE];
	unsigned n = 0;
	EVP_Digest(bytes.data(), bytes.size(), md, &n, EVP_sha1(), nullptr);
	unsigned char out[64];
	int const len = EVP_EncodeBlock(out, md, int(n));
	return string(reinterpret_cast<char*>(out), size_t(len));
}
