// Declarations of the part of JsonCpp 1.9.5 that wb-mqtt-serial uses.
// The distribution ships the run-time library (libjsoncpp.so.25) without headers; these declarations
// match its ABI, so the daemon is run with the very JSON implementation it is deployed with.
#pragma once

#include <array>
#include <exception>
#include <iosfwd>
#include <istream>
#include <ostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <cstddef>
#include <cstdint>

namespace Json
{
    using Int = int;
    using UInt = unsigned int;
    using Int64 = int64_t;
    using UInt64 = uint64_t;
    using LargestInt = Int64;
    using LargestUInt = UInt64;
    using ArrayIndex = unsigned int;
    using String = std::string;
    using OStream = std::ostream;
    using IStream = std::istream;

    class Exception: public std::exception
    {
    public:
        Exception(String msg);
        ~Exception() noexcept override;
        char const* what() const noexcept override;

    protected:
        String msg_;
    };

    enum ValueType
    {
        nullValue = 0,
        intValue,
        uintValue,
        realValue,
        stringValue,
        booleanValue,
        arrayValue,
        objectValue
    };

    enum CommentPlacement
    {
        commentBefore = 0,
        commentAfterOnSameLine,
        commentAfter,
        numberOfCommentPlacement
    };

    class StaticString
    {
    public:
        explicit StaticString(const char* s): c_str_(s)
        {}
        operator const char*() const
        {
            return c_str_;
        }
        const char* c_str() const
        {
            return c_str_;
        }

    private:
        const char* c_str_;
    };

    class ValueIteratorBase;
    class ValueIterator;
    class ValueConstIterator;

    class Value
    {
        friend class ValueIteratorBase;

    public:
        using Members = std::vector<String>;
        using iterator = ValueIterator;
        using const_iterator = ValueConstIterator;
        using UInt = Json::UInt;
        using Int = Json::Int;
        using Int64 = Json::Int64;
        using UInt64 = Json::UInt64;
        using LargestInt = Json::LargestInt;
        using LargestUInt = Json::LargestUInt;
        using ArrayIndex = Json::ArrayIndex;

        static const Value& null;
        static const Value& nullRef;
        static Value const& nullSingleton();

        class CZString
        {
        public:
            enum DuplicationPolicy
            {
                noDuplication = 0,
                duplicate,
                duplicateOnCopy
            };
            CZString(ArrayIndex index);
            CZString(char const* str, unsigned length, DuplicationPolicy allocate);
            CZString(CZString const& other);
            CZString(CZString&& other) noexcept;
            ~CZString();
            CZString& operator=(const CZString& other);
            CZString& operator=(CZString&& other) noexcept;
            bool operator<(CZString const& other) const;
            bool operator==(CZString const& other) const;
            ArrayIndex index() const;
            char const* data() const;
            unsigned length() const;
            bool isStaticString() const;

        private:
            void swap(CZString& other);
            struct StringStorage
            {
                unsigned policy_ : 2;
                unsigned length_ : 30;
            };
            char const* cstr_;
            union
            {
                ArrayIndex index_;
                StringStorage storage_;
            };
        };
        typedef std::map<CZString, Value> ObjectValues;

        Value(ValueType type = nullValue);
        Value(Int value);
        Value(UInt value);
        Value(Int64 value);
        Value(UInt64 value);
        Value(double value);
        Value(const char* value);
        Value(const char* begin, const char* end);
        Value(const StaticString& value);
        Value(const String& value);
        Value(bool value);
        Value(std::nullptr_t ptr) = delete;
        Value(const Value& other);
        Value(Value&& other) noexcept;
        ~Value();
        Value& operator=(const Value& other);
        Value& operator=(Value&& other) noexcept;
        void swap(Value& other);
        void swapPayload(Value& other);
        void copy(const Value& other);
        void copyPayload(const Value& other);
        ValueType type() const;
        bool operator<(const Value& other) const;
        bool operator<=(const Value& other) const;
        bool operator>=(const Value& other) const;
        bool operator>(const Value& other) const;
        bool operator==(const Value& other) const;
        bool operator!=(const Value& other) const;
        int compare(const Value& other) const;
        const char* asCString() const;
        String asString() const;
        bool getString(char const** begin, char const** end) const;
        Int asInt() const;
        UInt asUInt() const;
        Int64 asInt64() const;
        UInt64 asUInt64() const;
        LargestInt asLargestInt() const;
        LargestUInt asLargestUInt() const;
        float asFloat() const;
        double asDouble() const;
        bool asBool() const;
        bool isNull() const;
        bool isBool() const;
        bool isInt() const;
        bool isInt64() const;
        bool isUInt() const;
        bool isUInt64() const;
        bool isIntegral() const;
        bool isDouble() const;
        bool isNumeric() const;
        bool isString() const;
        bool isArray() const;
        bool isObject() const;
        bool isConvertibleTo(ValueType other) const;
        ArrayIndex size() const;
        bool empty() const;
        explicit operator bool() const;
        void clear();
        void resize(ArrayIndex newSize);
        Value& operator[](ArrayIndex index);
        Value& operator[](int index);
        const Value& operator[](ArrayIndex index) const;
        const Value& operator[](int index) const;
        Value get(ArrayIndex index, const Value& defaultValue) const;
        bool isValidIndex(ArrayIndex index) const;
        Value& append(const Value& value);
        Value& append(Value&& value);
        bool insert(ArrayIndex index, const Value& newValue);
        bool insert(ArrayIndex index, Value&& newValue);
        Value& operator[](const char* key);
        const Value& operator[](const char* key) const;
        Value& operator[](const String& key);
        const Value& operator[](const String& key) const;
        Value& operator[](const StaticString& key);
        Value get(const char* key, const Value& defaultValue) const;
        Value get(const char* begin, const char* end, const Value& defaultValue) const;
        Value get(const String& key, const Value& defaultValue) const;
        Value const* find(char const* begin, char const* end) const;
        Value* demand(char const* begin, char const* end);
        void removeMember(const char* key);
        void removeMember(const String& key);
        bool removeMember(const char* key, Value* removed);
        bool removeMember(String const& key, Value* removed);
        bool removeMember(const char* begin, const char* end, Value* removed);
        bool removeIndex(ArrayIndex index, Value* removed);
        bool isMember(const char* key) const;
        bool isMember(const String& key) const;
        bool isMember(const char* begin, const char* end) const;
        Members getMemberNames() const;
        void setComment(const char* comment, CommentPlacement placement)
        {
            setComment(String(comment), placement);
        }
        void setComment(String comment, CommentPlacement placement);
        bool hasComment(CommentPlacement placement) const;
        String getComment(CommentPlacement placement) const;
        String toStyledString() const;
        const_iterator begin() const;
        const_iterator end() const;
        iterator begin();
        iterator end();
        void setOffsetStart(ptrdiff_t start);
        void setOffsetLimit(ptrdiff_t limit);
        ptrdiff_t getOffsetStart() const;
        ptrdiff_t getOffsetLimit() const;

    private:
        union ValueHolder
        {
            LargestInt int_;
            LargestUInt uint_;
            double real_;
            bool bool_;
            char* string_;
            ObjectValues* map_;
        } value_;
        struct
        {
            unsigned int value_type_ : 8;
            unsigned int allocated_ : 1;
        } bits_;
        class Comments
        {
        public:
            Comments() = default;
            Comments(const Comments& that);
            Comments(Comments&& that) noexcept;
            Comments& operator=(const Comments& that);
            Comments& operator=(Comments&& that) noexcept;
            bool has(CommentPlacement slot) const;
            String get(CommentPlacement slot) const;
            void set(CommentPlacement slot, String comment);

        private:
            using Array = std::array<String, numberOfCommentPlacement>;
            std::unique_ptr<Array> ptr_;
        };
        Comments comments_;
        ptrdiff_t offset_start_;
        ptrdiff_t offset_limit_;
    };

    class ValueIteratorBase
    {
    public:
        using iterator_category = std::bidirectional_iterator_tag;
        using size_t = unsigned int;
        using difference_type = int;

        bool operator==(const ValueIteratorBase& other) const
        {
            return isEqual(other);
        }
        bool operator!=(const ValueIteratorBase& other) const
        {
            return !isEqual(other);
        }
        difference_type operator-(const ValueIteratorBase& other) const
        {
            return other.computeDistance(*this);
        }
        Value key() const;
        UInt index() const;
        String name() const;
        char const* memberName() const;
        char const* memberName(char const** end) const;

    protected:
        const Value& deref() const;
        Value& deref();
        void increment();
        void decrement();
        difference_type computeDistance(const ValueIteratorBase& other) const;
        bool isEqual(const ValueIteratorBase& other) const;
        void copy(const ValueIteratorBase& other);

    private:
        Value::ObjectValues::iterator current_;
        bool isNull_{true};

    public:
        ValueIteratorBase();
        explicit ValueIteratorBase(const Value::ObjectValues::iterator& current);
    };

    class ValueConstIterator: public ValueIteratorBase
    {
        friend class Value;

    public:
        using value_type = const Value;
        using reference = const Value&;
        using pointer = const Value*;
        using SelfType = ValueConstIterator;

        ValueConstIterator();
        ValueConstIterator(ValueIterator const& other);

    private:
        explicit ValueConstIterator(const Value::ObjectValues::iterator& current);

    public:
        SelfType& operator=(const ValueIteratorBase& other);
        SelfType operator++(int)
        {
            SelfType temp(*this);
            ++*this;
            return temp;
        }
        SelfType operator--(int)
        {
            SelfType temp(*this);
            --*this;
            return temp;
        }
        SelfType& operator--()
        {
            decrement();
            return *this;
        }
        SelfType& operator++()
        {
            increment();
            return *this;
        }
        reference operator*() const
        {
            return deref();
        }
        pointer operator->() const
        {
            return &deref();
        }
    };

    class ValueIterator: public ValueIteratorBase
    {
        friend class Value;

    public:
        using value_type = Value;
        using size_t = unsigned int;
        using difference_type = int;
        using reference = Value&;
        using pointer = Value*;
        using SelfType = ValueIterator;

        ValueIterator();
        explicit ValueIterator(const ValueConstIterator& other);
        ValueIterator(const ValueIterator& other);

    private:
        explicit ValueIterator(const Value::ObjectValues::iterator& current);

    public:
        SelfType& operator=(const SelfType& other);
        SelfType operator++(int)
        {
            SelfType temp(*this);
            ++*this;
            return temp;
        }
        SelfType& operator--()
        {
            decrement();
            return *this;
        }
        SelfType& operator++()
        {
            increment();
            return *this;
        }
        reference operator*() const
        {
            return const_cast<reference>(deref());
        }
        pointer operator->() const
        {
            return const_cast<pointer>(&deref());
        }
    };

    class CharReader
    {
    public:
        virtual ~CharReader() = default;
        virtual bool parse(char const* beginDoc, char const* endDoc, Value* root, String* errs) = 0;

        class Factory
        {
        public:
            virtual ~Factory() = default;
            virtual CharReader* newCharReader() const = 0;
        };
    };

    class CharReaderBuilder: public CharReader::Factory
    {
    public:
        Value settings_;
        CharReaderBuilder();
        ~CharReaderBuilder() override;
        CharReader* newCharReader() const override;
        bool validate(Json::Value* invalid) const;
        Value& operator[](const String& key);
        static void setDefaults(Json::Value* settings);
        static void strictMode(Json::Value* settings);
    };

    bool parseFromStream(CharReader::Factory const&, IStream&, Value* root, String* errs);
    IStream& operator>>(IStream&, Value&);

    class StreamWriter
    {
    protected:
        OStream* sout_;

    public:
        StreamWriter();
        virtual ~StreamWriter();
        virtual int write(Value const& root, OStream* sout) = 0;

        class Factory
        {
        public:
            virtual ~Factory();
            virtual StreamWriter* newStreamWriter() const = 0;
        };
    };

    String writeString(StreamWriter::Factory const& factory, Value const& root);

    class StreamWriterBuilder: public StreamWriter::Factory
    {
    public:
        Value settings_;
        StreamWriterBuilder();
        ~StreamWriterBuilder() override;
        StreamWriter* newStreamWriter() const override;
        bool validate(Json::Value* invalid) const;
        Value& operator[](const String& key);
        static void setDefaults(Json::Value* settings);
    };

    OStream& operator<<(OStream&, const Value& root);
}
