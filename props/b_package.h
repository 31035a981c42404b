// Packages made for the checks, and what their files say, read without the library.
#pragma once

#include "b_common.h"
#include "array_data.h"
#include "dcp.h"
#include "cpl.h"
#include "key.h"
#include "certificate_chain.h"
#include "smpte_text_asset.h"
#include <map>
#include <memory>
#include <string>
#include <vector>

struct PackageOptions {
	int standard = -1;              // 0: SMPTE, 1: Interop, -1: drawn
	int max_cpls = 3;
	bool more_cpls = false;         // more than one CPL is as likely as one
	int max_reels = 3;
	bool valid = false;             // full-size pictures and everything else verification asks for
	bool encrypted = true;          // some assets may be encrypted
	bool keys = false;              // about half of them are
	std::shared_ptr<dcp::Key> key;  // with this key
	bool tricky_names = true;       // directories and file names which collide
	bool atmos = true;
	std::vector<std::string> share; // files of other packages which may be used, copied, in this one
	std::string prefix;             // to make identities differ between packages of one run
};

struct Package {
	std::string dir;
	std::shared_ptr<dcp::DCP> dcp;
	// the files which belong to the package besides CPLs, PKL, asset map and volume index; path -> identity ("" if chosen by the library)
	std::map<std::string, std::string> files;
	std::vector<std::string> mxf;   // of these, the ones which can be shared
};

// the pictures, certificates and so on which every package uses
void package_setup();
std::shared_ptr<dcp::CertificateChain> signer_chain();
std::shared_ptr<dcp::CertificateChain> recipient_chain();
std::shared_ptr<dcp::CertificateChain> other_chain();

// makes the assets and CPLs in dir; the XML remains to be written
Package make_package(sim::Ctx& ctx, std::string const& dir, PackageOptions const& options);
// a further reel for a CPL of the package
void add_reel(sim::Ctx& ctx, Package& package, std::shared_ptr<dcp::CPL> cpl, PackageOptions const& options);

// an SMPTE text asset with strings, images and fonts, and what is in it as text
std::shared_ptr<dcp::SMPTETextAsset> make_smpte_text(sim::Ctx& ctx, std::string& state);
std::string describe_smpte_text(dcp::SMPTETextAsset const& asset);

// a J2K codestream
dcp::ArrayData const& small_frame();
dcp::ArrayData const& full_frame();
// one of four small ones which differ
dcp::ArrayData const& other_frame(int n);
dcp::ArrayData png_bytes(sim::Ctx& ctx);

// what a CPL says, as text
std::string describe_cpl(std::shared_ptr<dcp::CPL> cpl);
// all the CPLs of a package by identity
std::map<std::string, std::string> describe_cpls(dcp::DCP const& dcp);

// the asset map and packing lists, by way of libxml2 alone
struct Listing {
	struct Entry {
		std::string id, path, hash, type;
		int64_t length = -1, size = -1;
		int in_map = 0, in_pkl = 0;
		bool pkl = false;
	};
	std::map<std::string, Entry> entries;     // by identity
	std::string error;                        // empty if everything could be parsed
};
Listing read_listing(std::string const& dir, bool smpte);
// checks a listing against the files; returns what is wrong or an empty string
std::string check_listing(std::string const& dir, Listing const& listing);
// the root element of an XML document, or an empty string if it is not well formed
std::string root_of(std::string const& xml);
