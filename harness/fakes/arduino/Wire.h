#pragma once
#include <Arduino.h>
class TwoWire : public Stream {
public:
    void begin() {}
    int available() override { return 0; }
    int read() override { return -1; }
    int peek() override { return -1; }
    size_t write(uint8_t) override { return 0; }
};
inline TwoWire Wire;
