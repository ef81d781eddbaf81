/********************************************************************************************
* Hardware-based random number generation function
*
* It uses /dev/urandom in Unix-like OSs and CNG's BCryptGenRandom function in Windows
*********************************************************************************************/ 

#include "random.h"
#include <stdlib.h>
#if defined(WINDOWS)
    #include <windows.h>
    #include <bcrypt.h>
#elif defined(NIX)
    #include <unistd.h>
    #include <fcntl.h>
    static int urandom_fd = -1;
#endif

#define passed 0 
#define failed 1
#define MAX_CHUNK 0x40000000    // largest single request to the operating system


static __inline void delay(unsigned int count)
{
    while (count--) {}
}


int randombytes(unsigned char* out, unsigned long long nbytes)
{ // Generation of "nbytes" of random values
    
#if defined(WINDOWS)   
    while (nbytes > 0) {
        unsigned long n = (nbytes > MAX_CHUNK) ? MAX_CHUNK : (unsigned long)nbytes;
        if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, out, n, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
            return failed;
        }
        out += n;
        nbytes -= n;
    }

#elif defined(NIX)
    int r, n;
    
    if (urandom_fd == -1) {
        do {
            urandom_fd = open("/dev/urandom", O_RDONLY);
            if (urandom_fd == -1) {
                delay(0xFFFFF);
            }
        } while (urandom_fd == -1);
    }

    while (nbytes > 0) {
        n = (nbytes > MAX_CHUNK) ? MAX_CHUNK : (int)nbytes;
        do {
            r = read(urandom_fd, out, n);
            if (r == -1) {
                delay(0xFFFF);
            }
        } while (r == -1);
        out += r;
        nbytes -= r;
    }
#endif

    return passed;
}