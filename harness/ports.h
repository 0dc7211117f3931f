// A port number nobody else uses: claimed among the processes of this check, probed against the rest.
#ifndef PORTS_H
#define PORTS_H
#include <arpa/inet.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <unistd.h>
// dir: a directory shared by all processes of the check
static inline int claim_port(const char *dir, int type)
{
    for (int p = 21000; p < 31000; ++p)
    {
        char name[300];
        snprintf(name, sizeof name, "%s/port.%d.%d", dir, type, p);
        int lock = open(name, O_CREAT | O_EXCL | O_WRONLY, 0600);
        if (lock < 0) continue;
        close(lock);
        bool ok = true;
        for (int v6 = 0; v6 < 2 && ok; ++v6)
        {
            int s = socket(v6 ? AF_INET6 : AF_INET, type, 0);
            sockaddr_in a4;
            sockaddr_in6 a6;
            memset(&a4, 0, sizeof a4);
            memset(&a6, 0, sizeof a6);
            a4.sin_family = AF_INET; a4.sin_port = htons(p);
            a6.sin6_family = AF_INET6; a6.sin6_port = htons(p);
            ok = bind(s, v6 ? (sockaddr *)&a6 : (sockaddr *)&a4, v6 ? sizeof a6 : sizeof a4) == 0;
            close(s);
        }
        if (ok) return p;
    }
    fprintf(stderr, "no free port\n");
    abort();
}
#endif
