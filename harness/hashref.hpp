#pragma once
#include "common.hpp"
#include <array>
#include <string>
#include <vector>
// textbook SHA-1 (FIPS 180-4, section 6.1.2), fed byte by byte
struct ref_sha1
{
	uint32_t h[5] = { 0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u };
	uint64_t bytes = 0;
	uint8_t blk[64];
	static uint32_t rol(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
	void block(const uint8_t* p)
	{
		uint32_t w[80];
		for (int t = 0; t < 16; t++)
			w[t] = uint32_t{ p[t * 4] } << 24 | uint32_t{ p[t * 4 + 1] } << 16 | uint32_t{ p[t * 4 + 2] } << 8 | p[t * 4 + 3];
		for (int t = 16; t < 80; t++)
			w[t] = rol(w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16], 1);
		uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
		for (int t = 0; t < 80; t++)
		{
			uint32_t f, k;
			if (t < 20)
				f = (b & c) | (~b & d), k = 0x5A827999;
			else if (t < 40)
				f = b ^ c ^ d, k = 0x6ED9EBA1;
			else if (t < 60)
				f = (b & c) | (b & d) | (c & d), k = 0x8F1BBCDC;
			else
				f = b ^ c ^ d, k = 0xCA62C1D6;
			const uint32_t tmp = rol(a, 5) + f + e + k + w[t];
			e = d, d = c, c = rol(b, 30), b = a, a = tmp;
		}
		h[0] += a, h[1] += b, h[2] += c, h[3] += d, h[4] += e;
	}
	void add(const void* data, size_t n)
	{
		auto p = static_cast<const uint8_t*>(data);
		while (n)
		{
			if (bytes % 64 == 0 && n >= 64)
			{
				block(p);
				p += 64, n -= 64, bytes += 64;
				continue;
			}
			blk[bytes++ % 64] = *p++;
			n--;
			if (bytes % 64 == 0)
				block(blk);
		}
	}
	std::array<uint8_t, 20> digest()
	{
		const uint64_t bits = bytes * 8;
		const uint8_t one = 0x80, zero = 0;
		add(&one, 1);
		while (bytes % 64 != 56)
			add(&zero, 1);
		for (int i = 7; i >= 0; i--)
		{
			const uint8_t b = static_cast<uint8_t>(bits >> (8 * i));
			add(&b, 1);
		}
		std::array<uint8_t, 20> r;
		for (int i = 0; i < 20; i++)
			r[i] = static_cast<uint8_t>(h[i / 4] >> (24 - 8 * (i % 4)));
		return r;
	}
};
inline std::array<uint8_t, 20> sha1_of(const std::string& s)
{
	ref_sha1 r;
	r.add(s.data(), s.size());
	return r.digest();
}
inline std::string hex_of(const void* p, size_t n)
{
	static const char* d = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < n; i++)
	{
		s += d[static_cast<const uint8_t*>(p)[i] >> 4];
		s += d[static_cast<const uint8_t*>(p)[i] & 15];
	}
	return s;
}
