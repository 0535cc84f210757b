// A terminal with any number of columns.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <unistd.h>

namespace vf
{
    // Makes standard output a terminal with the given number of columns.
    class Terminal
    {
    public:
        explicit Terminal(unsigned columns)
        {
            static const int slave = open_slave();
            if (slave < 0) return;
            winsize ws = {};
            ws.ws_row = 25;
            ws.ws_col = static_cast<unsigned short>(columns);
            if (ioctl(slave, TIOCSWINSZ, &ws) != 0) return;
            fflush(stdout);
            m_saved = dup(1);
            if (m_saved >= 0) dup2(slave, 1);
        }

        ~Terminal()
        {
            if (m_saved < 0) return;
            dup2(m_saved, 1);
            close(m_saved);
        }

        Terminal(const Terminal&) = delete;

        // Some systems don't have any
        bool ok() const { return m_saved >= 0; }
    private:
        static int open_slave()
        {
            const int master = posix_openpt(O_RDWR | O_NOCTTY);
            if (master < 0 || grantpt(master) != 0 || unlockpt(master) != 0) return -1;
            const char* name = ptsname(master);
            return name ? open(name, O_RDWR | O_NOCTTY) : -1;
        }

        int m_saved = -1;
    };
}
