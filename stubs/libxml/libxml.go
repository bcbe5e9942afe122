// Package libxml is a stand-in for github.com/amarin/libxml v0.1.2, which cannot be fetched here.
// It gives ParseXMLFile the shape its only caller uses: a file path and a token processor.
package libxml

import (
	"encoding/xml"
	"errors"
	"io"
	"os"
)

// Processor receives the tokens of a document in document order.
type Processor interface {
	ProcessStartElement(element xml.StartElement) error
	ProcessCharData(data xml.CharData) error
	ProcessEndElement(element xml.EndElement) error
	ProcessComment(comment xml.Comment) error
	ProcessProcInst(inst xml.ProcInst) error
	ProcessDirective(directive xml.Directive) error
}

// ParseXMLFile feeds the tokens of the file to the processor, stopping at the first error.
func ParseXMLFile(filePath string, processor Processor) error {
	file, err := os.Open(filePath)
	if err != nil {
		return err
	}
	defer func() { _ = file.Close() }()

	return ParseXML(file, processor)
}

// ParseXML feeds the tokens of the reader to the processor, stopping at the first error.
func ParseXML(reader io.Reader, processor Processor) error {
	decoder := xml.NewDecoder(reader)
	for {
		token, err := decoder.Token()
		if errors.Is(err, io.EOF) {
			return nil
		}
		if err != nil {
			return err
		}
		switch element := token.(type) {
		case xml.StartElement:
			err = processor.ProcessStartElement(element)
		case xml.EndElement:
			err = processor.ProcessEndElement(element)
		case xml.CharData:
			err = processor.ProcessCharData(element)
		case xml.Comment:
			err = processor.ProcessComment(element)
		case xml.ProcInst:
			err = processor.ProcessProcInst(element)
		case xml.Directive:
			err = processor.ProcessDirective(element)
		}
		if err != nil {
			return err
		}
	}
}
